"""A stand-in for IPython and ipywidgets, which are not installed here: widgets that keep what they are told, and a record of what was shown."""
import builtins, contextlib, sys, types


class Widget(object):
    made = []

    def __init__(self, **kw):
        self.__dict__["closed"] = False
        self.__dict__["seen"] = []
        self.value, self.bar_style, self.children = kw.pop("value", ""), "", list(kw.pop("children", ()))
        self.__dict__.update(kw)
        Widget.made.append(self)

    def __setattr__(self, k, v):
        self.__dict__[k] = v
        if k == "value":
            self.seen.append(v)

    def close(self):
        self.__dict__["closed"] = True

    def add_class(self, c):
        return self

    remove_class = add_class


class HTML(Widget):
    pass


class IntProgress(Widget):
    pass


class Box(Widget):
    pass


class VBox(Box):
    pass


class HBox(Box):
    pass


SHOWN = []


def install():
    top, disp, wid = types.ModuleType("IPython"), types.ModuleType("IPython.display"), types.ModuleType("ipywidgets")
    disp.display = lambda *a, **k: SHOWN.extend(a)
    top.display = disp
    for c in (HTML, IntProgress, Box, VBox, HBox):
        setattr(wid, c.__name__, c)
    sys.modules.update({"IPython": top, "IPython.display": disp, "ipywidgets": wid})


@contextlib.contextmanager
def notebook():
    """inside, the code runs as in a notebook"""
    del SHOWN[:], Widget.made[:]
    builtins.get_ipython = lambda: None
    try:
        yield
    finally:
        del builtins.get_ipython
