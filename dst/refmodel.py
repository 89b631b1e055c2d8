"""The reference model: a plain re-statement of what a hierarchy of parameters should be.

Nothing in here uses paramz; transformations, names and paths are stated independently.
"""
import numpy as np

LIM = 36.0


def tf(key, x):
    """optimizer entry -> value"""
    x = np.asarray(x, dtype=float)
    k = key[0]
    with np.errstate(all="ignore"):
        if k == "Logexp":
            return np.logaddexp(0.0, x)
        if k == "NegativeLogexp":
            return -np.logaddexp(0.0, x)
        if k == "Exponent":
            return np.exp(np.clip(x, -LIM, LIM))
        if k == "NegativeExponent":
            return -np.exp(np.clip(x, -LIM, LIM))
        if k == "Square":
            return x * x
        if k == "Logistic":
            return key[1] + (key[2] - key[1]) / (1.0 + np.exp(-np.clip(x, -300.0, None)))
    raise KeyError(k)


def tinv(key, v):
    """value -> optimizer entry; nan where the inverse is too ill-conditioned to compare"""
    v = np.asarray(v, dtype=float)
    k = key[0]
    with np.errstate(all="ignore"):
        if k == "Logexp":
            return np.where(v > LIM, v, np.log(np.expm1(v)))
        if k == "NegativeLogexp":
            return tinv(("Logexp",), -v)
        if k == "Exponent":
            return np.log(v)
        if k == "NegativeExponent":
            return np.log(-v)
        if k == "Square":
            return np.sqrt(v)
        if k == "Logistic":
            lo, hi = key[1], key[2]
            a, b = v - lo, hi - v
            bad = (a < 1e-7 * (hi - lo)) | (b < 1e-7 * (hi - lo))
            return np.where(bad, np.nan, np.log(a / b))
    raise KeyError(k)


def slope(key, v):
    """d value / d entry, from the value"""
    v = np.asarray(v, dtype=float)
    k = key[0]
    with np.errstate(all="ignore"):
        if k == "Logexp":
            return np.where(v > LIM, 1.0, -np.expm1(-v))
        if k == "NegativeLogexp":
            return -slope(("Logexp",), -v)
        if k in ("Exponent", "NegativeExponent"):
            return v
        if k == "Square":
            return 2 * np.sqrt(v)
        if k == "Logistic":
            return (v - key[1]) * (key[2] - v) / (key[2] - key[1])
    raise KeyError(k)


def in_domain(key, v):
    k = key[0]
    if k in ("Logexp", "Exponent", "Square"):
        return v >= 0
    if k in ("NegativeLogexp", "NegativeExponent"):
        return v <= 0
    return (v >= key[1]) & (v <= key[2])


def legal(key, v):
    """project a generated value well inside the domain"""
    if key is None:
        return v
    k = key[0]
    if k in ("Logexp", "Exponent", "Square"):
        return abs(v) if v else 0.5
    if k in ("NegativeLogexp", "NegativeExponent"):
        return -abs(v) if v else -0.5
    lo, hi = key[1], key[2]
    return lo + (hi - lo) * (0.1 + 0.8 * (abs(v) % 1.0))


ADJ = [(" ", "_"), (".", "_"), ("-", "_m_"), ("+", "_p_"), ("!", "_I_"), ("**", "_xx_"), ("*", "_x_"), ("/", "_l_"), ("@", "_at_"), ("(", "_of_"), (")", "")]


def adjust(name):
    for a, b in ADJ:
        name = name.replace(a, b)
    return name


class R(object):
    """One parameter object: what the library should know about it."""
    __slots__ = ("kind", "name", "real", "parent", "kids", "shape", "val", "con", "fix", "grad", "upd", "dirty", "used", "rid", "tag", "stuff", "pri")

    def __init__(self, kind, name, real, rid):
        self.kind, self.name, self.real, self.rid = kind, name, real, rid
        self.parent, self.kids = None, []
        self.shape = self.val = self.con = self.fix = self.grad = None
        self.pri = None         # per scalar: what the user's own index operation says
        self.upd, self.dirty, self.used, self.tag, self.stuff = True, True, set(), None, None

    @property
    def isleaf(self):
        return self.kind == "leaf"

    def leaves(self):
        if self.isleaf:
            return [self]
        return [l for k in self.kids for l in k.leaves()]

    def all(self):
        out = [self]
        for k in self.kids:
            out.extend(k.all())
        return out

    def nodes(self):
        return [o for o in self.all() if not o.isleaf]

    def ancestors(self):
        out, p = [], self.parent
        while p is not None:
            out.append(p)
            p = p.parent
        return out

    def root(self):
        o = self
        while o.parent is not None:
            o = o.parent
        return o

    @property
    def size(self):
        return int(np.prod(self.shape)) if self.isleaf else sum(k.size for k in self.kids)

    def values(self):
        ls = self.leaves()
        return np.concatenate([l.val for l in ls]) if ls else np.zeros(0)

    def grads(self):
        ls = self.leaves()
        return np.concatenate([l.grad for l in ls]) if ls else np.zeros(0)

    def fixes(self):
        ls = self.leaves()
        return np.concatenate([l.fix for l in ls]) if ls else np.zeros(0, dtype=bool)

    def cons(self):
        return [c for l in self.leaves() for c in l.con]

    def scalars(self):
        """[(leaf, flat index)] in order"""
        return [(l, i) for l in self.leaves() for i in range(l.size)]

    def free(self):
        return [(l, i) for l, i in self.scalars() if not l.fix[i]]

    def path(self):
        """path below the root, as patterns see it"""
        out, o = [], self
        while o.parent is not None:
            out.append(adjust(o.name))
            o = o.parent
        return ".".join(reversed(out))

    def hname(self):
        p = self.path()
        r = adjust(self.root().name)
        return r + ("." + p if p else "")

    def offset_in(self, anc):
        """flat offset of this object inside its ancestor"""
        o, off = self, 0
        while o is not anc:
            p = o.parent
            for k in p.kids:
                if k is o:
                    break
                off += k.size
            o = p
        return off

    def shape_sig(self):
        if self.isleaf:
            return (self.size, tuple(str(c[0]) if c else "-" for c in self.con), tuple(bool(x) for x in self.fix))
        return (self.upd,) + tuple(k.shape_sig() for k in self.kids)
