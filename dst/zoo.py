"""User-side classes built on the library: the 'application' every simulated run executes on the real code.

Their callbacks are the seams through which faults enter.  WORLD[0] is the active simulation (None outside).
"""
import numpy as np
from paramz import Model, Parameterized, Param
from paramz.optimization.optimization import Optimizer
from paramz.core.index_operations import ParameterIndexOperations
from paramz.caching import Cacher, Cache_this

WORLD = [None]


def weights(n):
    return np.cos(np.arange(n) * 1.7 + 0.3)


def derive(node):
    """Derived state: a function of the node's own flat values and its children's derived state."""
    v = np.asarray(node.param_array, dtype=float).ravel()
    d = float(np.dot(weights(v.size), v)) if v.size else 0.0
    for i, c in enumerate(node.parameters):
        if isinstance(c, Node):
            d += 0.5 * (i + 1) * c.__dict__.get("derived", 0.0)
    return d


OWN = [False]       # whether the objects keep an index operation of the user's besides the constraints


class Leaf(Param):
    """A parameter with an index operation of the user's, the way priors are kept by probabilistic models."""
    def __init__(self, name, input_array, default_constraint=None, *a, **kw):
        super(Leaf, self).__init__(name, input_array, default_constraint, *a, **kw)
        self.add_index_operation("priors", ParameterIndexOperations())


class Node(Parameterized):
    """A parameterized object whose parameters_changed derives state bottom-up and can be made to fail."""
    def __init__(self, name=None):
        super(Node, self).__init__(name)
        if OWN[0]:
            self.add_index_operation("priors", ParameterIndexOperations())

    def parameters_changed(self):
        w = WORLD[0]
        if w is not None:
            w.on_changed(self)
        self.__dict__["derived"] = derive(self)
        if w is not None:
            w.on_changed_done(self)


class MNode(Model, Node):
    """A model: a separable quadratic objective around a fixed centre."""
    def parameters_changed(self):
        Node.parameters_changed(self)

    def centre(self):
        return np.linspace(0.5, 1.5, self.size) if self.size else np.zeros(0)

    def objective_function(self):
        w = WORLD[0]
        if w is not None:
            w.on_objective(self)
        return float(((np.asarray(self.param_array) - self.centre()) ** 2).sum())

    def objective_function_gradients(self):
        return 2 * (np.asarray(self.param_array) - self.centre())


_RESERVED = {}


def reserved(obj):
    """the attributes an object of this class has, whatever is linked to it"""
    c = MNode if isinstance(obj, MNode) else CNode if isinstance(obj, CNode) else Node
    if c not in _RESERVED:
        w, WORLD[0] = WORLD[0], None
        own, OWN[0] = OWN[0], False
        n = c("n")
        n.link_parameter(Param("q", np.ones(1)))
        _RESERVED[c] = set(dir(n)) - {"q"}
        WORLD[0], OWN[0] = w, own
    return _RESERVED[c]


class Scripted(Optimizer):
    """An optimizer that makes exactly the evaluations of its script: [("f"|"g"|"b", vector), ...]."""
    def __init__(self, script, final=None, stop=None, on_eval=None):
        Optimizer.__init__(self, max_iters=10)
        self.opt_name = "scripted"
        self.script, self.final, self.stop, self.on_eval = script, final, stop, on_eval

    def opt(self, x_init, f_fp=None, f=None, fp=None):
        self.asked = 0
        for i, (kind, x) in enumerate(self.script):
            self.asked = i
            x = np.array(x, dtype=float)
            r = f(x) if kind == "f" else (fp(x) if kind == "g" else f_fp(x))
            if self.on_eval is not None:
                self.on_eval(self, i, kind, x, r)
            if self.stop is not None and self.stop[0] == i:
                raise self.stop[1]
        self.x_opt = np.array(self.final if self.final is not None else x_init, dtype=float)
        self.f_opt = float(f_fp(self.x_opt)[0])
        self.funct_eval = len(self.script) + 1
        self.status = "script finished"

    def __getstate__(self):
        d = dict(self.__dict__)
        d.pop("on_eval", None)
        return d


class _Built(object):
    """Puts its parts together in its own __init__, the way most users' classes do."""
    def __init__(self, name, parts, then, at_once):
        super(_Built, self).__init__(name)
        if at_once:
            self.link_parameters(*[p for p, _ in parts])
        else:
            for p, index in parts:
                if index is None:
                    self.link_parameter(p)
                else:
                    self.link_parameter(p, index)
                then(p)
        if at_once:
            for p, _ in parts:
                then(p)


class BNode(_Built, Node):
    pass


class BModel(_Built, MNode):
    pass


class CNode(Node):
    """A node with both kinds of cached methods (objects with a Cacher cannot be pickled, only copied)."""
    def __init__(self, name):
        super(CNode, self).__init__(name)
        self.attached = Cacher(self._attached, limit=2)

    def _attached(self, x):
        return (id(self), float(np.asarray(x).sum()))

    @Cache_this(limit=2, ignore_args=(0,))
    def decorated(self, x):
        return (id(self), float(np.asarray(x).sum()))
