"""stand-ins for matplotlib and plotly that record what is drawn"""
import sys
import types


class Call:
    def __init__(self, owner, name, args, kw):
        self.owner, self.name, self.args, self.kw = owner, name, args, kw

    def get(self, i, *names, default=None):
        """argument by position or name"""
        for n in names:
            if n in self.kw:
                return self.kw[n]
        return self.args[i] if i is not None and i < len(self.args) else default


class Thing:
    """an object whose every method call is recorded"""

    def __init__(self, log, kind):
        self.__dict__.update(log=log, kind=kind, kids={})

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)

        def method(*a, **k):
            c = Call(self, name, a, k)
            self.log.append(c)
            return self._result(name, a, k)

        return method

    def _result(self, name, a, k):
        return Thing(self.log, name)

    def __setitem__(self, k, v):
        self.kids[k] = v


class Plt(Thing):
    def _result(self, name, a, k):
        if name == "subplots":
            rows = k.get("nrows", a[0] if a else 1)
            cols = k.get("ncols", a[1] if len(a) > 1 else 1)
            n = rows * cols
            axes = tuple(Thing(self.log, "axes%d" % i) for i in range(n))
            return Thing(self.log, "figure"), axes if n > 1 else axes[0]
        if name == "stem":
            return Thing(self.log, "marker"), Thing(self.log, "stem"), Thing(self.log, "base")
        if name in ("gca", "axes"):
            return self
        return Thing(self.log, name)


def matplotlib(h):
    log = []
    top, plt = types.ModuleType("matplotlib"), Plt(log, "plt")
    top.pyplot = plt
    h.setattr(sys.modules, "matplotlib", top)
    h.setattr(sys.modules, "matplotlib.pyplot", plt)
    return log


class Obj:
    def __init__(self, kind, a, k):
        self.kind, self.args, self.kw = kind, a, k


def plotly(h):
    log = []

    class Figure(Thing):
        def __init__(self, data=None, *a, **k):
            Thing.__init__(self, log, "figure")
            for d in data or []:
                self.add_trace(d)

    go = types.ModuleType("plotly.graph_objects")
    go.Figure = Figure
    for n in ("Scatter", "Scattergl", "Layout", "Bar"):
        setattr(go, n, (lambda n: lambda *a, **k: Obj(n, a, k))(n))
    lay = types.ModuleType("plotly.graph_objects.layout")
    lay.Template = lambda *a, **k: Obj("Template", a, k)
    go.layout = lay

    class Pio(types.ModuleType):
        def __getattr__(self, name):
            if name.startswith("__"):
                raise AttributeError(name)

            def f(*a, **k):
                log.append(Call(self, name, a, k))
                return Thing(log, name)

            return f

    pio = Pio("plotly.io")

    pio.templates = _Templates()
    sub = Pio("plotly.subplots")
    top = types.ModuleType("plotly")
    top.graph_objects, top.io, top.subplots = go, pio, sub
    for n, m in (("plotly", top), ("plotly.graph_objects", go), ("plotly.io", pio), ("plotly.subplots", sub)):
        h.setattr(sys.modules, n, m)
    return log


class _Templates(dict):
    default = None

    def __setitem__(self, k, v):
        way = v.kw.get("layout_colorway") or ["#%d" % i for i in range(10)]
        dict.__setitem__(self, k, types.SimpleNamespace(layout=types.SimpleNamespace(colorway=way)))


def saved(log):
    """[(name, type)] written, in order"""
    out = []
    for c in log:
        if c.name == "savefig":
            n = str(c.get(0, "fname"))
            out.append((n, str(c.kw.get("format", n.rsplit(".", 1)[-1]))))
        elif c.name in ("write_html", "write_image"):
            a = c.args[1:] if c.owner.__class__.__name__ == "Pio" else c.args
            n = str(c.kw.get("file", a[0] if a else ""))
            out.append((n, c.name))
    return out


def shown(log):
    """is anything put on the screen?"""
    return any(c.name == "show" for c in log)
