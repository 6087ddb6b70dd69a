"""Puts stand-ins into the loaded rascal modules for one run, and removes them.

Two kinds:
* symbolic stand-ins (numpy, math, float, int, isinstance ...), only for a
  symbolic run: they make unmodified rascal functions compute with symbols;
* environment stubs (scipy's optimisers, file access, random numbers ...), for
  the symbolic run and, with values fixed by the solver's model, for the
  concrete replay.
"""
import builtins
import collections
import importlib
import math
import sys
import types
import numpy as _np
import numpy.polynomial.polynomial as _P
import numpy.polynomial.chebyshev as _C
import numpy.polynomial.legendre as _L
from . import engine as E
from . import symnp as S
from .engine import Sym, SymNum, SymBool


def rascal_modules():
    return [m for n, m in list(sys.modules.items()) if (n == "rascal" or n.startswith("rascal.")) and m is not None]


# -- what the modules keep ---------------------------------------------------


class ModuleState:
    """the names and containers of the loaded rascal modules and classes as they
    were when first seen: put back before every run, so that nothing the library
    remembers leaks from one path (or its replay) into the next"""

    LIMIT = 20000

    def __init__(self):
        self.names = {}  # id(owner) -> (owner, {name: value})
        self.boxes = {}  # id(container) -> (container, copy of its content)
        self.caches = {}

    def _box(self, o, depth=0):
        if id(o) in self.boxes or len(self.boxes) > self.LIMIT or depth > 4:
            return
        if isinstance(o, dict):
            self.boxes[id(o)] = (o, dict(o))
            for v in list(o.values()):
                self._box(v, depth + 1)
        elif isinstance(o, (list, set, collections.deque)):
            self.boxes[id(o)] = (o, type(o)(o) if not isinstance(o, collections.deque) else list(o))
            if isinstance(o, list):
                for v in o:
                    self._box(v, depth + 1)

    def _value(self, v, depth=0):
        self._box(v)
        clear = getattr(v, "cache_clear", None)
        if callable(clear) and not isinstance(v, type):
            self.caches[id(v)] = v
            v = getattr(v, "__wrapped__", v)
        if isinstance(v, (staticmethod, classmethod)):
            v = v.__func__
        if isinstance(v, property):
            for f in (v.fget, v.fset):
                if f is not None and depth < 3:
                    self._value(f, depth + 1)
        if isinstance(v, types.FunctionType) and (v.__module__ or "").startswith("rascal"):
            self._box(v.__dict__)
            for d in list(v.__defaults__ or ()) + list((v.__kwdefaults__ or {}).values()):
                self._box(d)
            for c in v.__closure__ or ():
                try:
                    o = c.cell_contents
                except ValueError:
                    continue
                if isinstance(o, types.FunctionType) and depth < 3:
                    self._value(o, depth + 1)
                else:
                    self._box(o)

    def see(self):
        for m in rascal_modules():
            if id(m) in self.names:
                continue
            self.names[id(m)] = (m, dict(vars(m)))
            for n, v in list(vars(m).items()):
                if n.startswith("__"):
                    continue
                self._value(v)
                if isinstance(v, type) and v.__module__.startswith("rascal") and id(v) not in self.names:
                    self.names[id(v)] = (v, dict(vars(v)))
                    for a, w in list(vars(v).items()):
                        if not a.startswith("__"):
                            self._value(w)

    def restore(self):
        self.see()
        for o, was in self.names.values():
            now = vars(o)
            for n in [n for n in now if n not in was and not n.startswith("__")]:
                if not isinstance(now[n], types.ModuleType):
                    delattr(o, n)
            for n, v in was.items():
                if not n.startswith("__") and now.get(n, None) is not v:
                    setattr(o, n, v)
        for o, was in self.boxes.values():
            if isinstance(o, dict):
                if len(o) != len(was) or any(o.get(k, self) is not v for k, v in was.items()):
                    o.clear()
                    o.update(was)
            elif isinstance(o, set):
                if o != was:
                    o.clear()
                    o.update(was)
            elif len(o) != len(was) or any(a is not b for a, b in zip(o, was)):
                o.clear()
                o.extend(was)
        for v in self.caches.values():
            v.cache_clear()


MODULES = ModuleState()


# -- builtins -------------------------------------------------------------


class FloatProxy(S._TypeProxy):
    def __init__(self):
        super().__init__(float, S.to_float)

    def __call__(self, x=0.0):
        if isinstance(x, SymBool):
            return x.num()
        if isinstance(x, SymNum):
            return x
        if isinstance(x, E.SymText):
            return x.num
        if isinstance(x, S.SymArray) and x.size == 1:
            return self(x.reshape(-1)[0])
        return float(x)

    def __getattr__(self, n):
        return getattr(float, n)


class IntProxy(S._TypeProxy):
    def __init__(self):
        super().__init__(int, S.to_intlike)

    def __call__(self, x=0, *a):
        if isinstance(x, Sym):
            if isinstance(x, SymNum) and x.e.decl().kind() == E.z3.Z3_OP_TO_REAL:
                return x
            t = x.trunc() if isinstance(x, SymNum) else x
            if isinstance(t, SymNum) and E.CTX.wide_int(t.e):
                return t
            return int(t)  # forks
        if isinstance(x, S.SymArray) and x.size == 1:
            return int(x.reshape(-1)[0])
        return int(x, *a)

    def __getattr__(self, n):
        return getattr(int, n)


FLOATP = FloatProxy()
INTP = IntProxy()


def _undo(t):
    if isinstance(t, tuple):
        return tuple(_undo(x) for x in t)
    return t._t if isinstance(t, S._TypeProxy) else t


def sym_isinstance(o, t):
    t = _undo(t)
    if builtins.isinstance(o, SymNum):
        o = 0.5
    elif builtins.isinstance(o, SymBool):
        o = True
    return builtins.isinstance(o, t)


def sym_min(*a, **k):
    if k:
        return builtins.min(*a, **k)
    v = list(a[0]) if len(a) == 1 else list(a)
    if not any(builtins.isinstance(x, Sym) for x in v):
        return builtins.min(*a)
    r = v[0]
    for x in v[1:]:
        # Python's min keeps the first of equals
        r = E.ite(x < r, x, r)
    return r


def sym_max(*a, **k):
    if k:
        return builtins.max(*a, **k)
    v = list(a[0]) if len(a) == 1 else list(a)
    if not any(builtins.isinstance(x, Sym) for x in v):
        return builtins.max(*a)
    r = v[0]
    for x in v[1:]:
        r = E.ite(x > r, x, r)
    return r


class MathProxy:
    def __getattr__(self, n):
        real = getattr(math, n)
        if not callable(real):
            return real

        def f(*a):
            if not any(builtins.isinstance(x, Sym) for x in a):
                return real(*a)
            if n in ("sqrt", "exp", "log", "log10", "trunc"):
                return getattr(a[0], n)()
            if n in ("floor", "ceil"):
                return int(getattr(a[0], n)())
            if n == "fabs":
                return abs(a[0])
            if n == "isfinite":
                return True
            if n in ("isnan", "isinf"):
                return False
            if n == "hypot":
                return S.s_hypot(*a)
            if n == "pow":
                return a[0] ** a[1]
            if n == "isclose":
                raise E.Unsupported("math.isclose")
            raise E.Unsupported("math." + n)

        return f


def sym_sum(it, start=0):
    r = start
    for x in it:
        r = r + x
    return r


# -- numpy.polynomial ------------------------------------------------------


def _horner(x, c, **k):
    """polynomial.polyval, coefficients lowest order first"""
    cs = list(S.obj(c)) if not builtins.isinstance(c, (list, tuple)) else list(c)
    xs = S.f_asarray(x) if builtins.isinstance(x, (list, tuple, _np.ndarray)) else x
    r = cs[-1] + xs * 0
    for v in reversed(cs[:-1]):
        r = v + r * xs
    return r


def _np_polyval(p, x):
    return _horner(x, list(reversed(list(S.obj(p)))))


def _clenshaw(kind):
    def f(x, c, **k):
        cs = list(S.obj(c))
        xs = S.f_asarray(x) if builtins.isinstance(x, (list, tuple, _np.ndarray)) else x
        t0, t1 = xs * 0 + 1.0, xs
        r = cs[0] * t0
        for n in range(1, len(cs)):
            r = r + cs[n] * t1
            if kind == "cheb":
                t0, t1 = t1, 2 * xs * t1 - t0
            else:
                t0, t1 = t1, ((2 * n + 1) * xs * t1 - n * t0) / float(n + 1)
        return r

    return f


def _maybe(f, real):
    def g(*a, **k):
        if E.CTX is None or not E.CTX.symbolic:
            return real(*a, **k)
        if S._has_sym(a, k):
            return f(*a, **k)
        return real(*a, **k)

    g.__name__ = real.__name__
    return g


def _nofit(*a, **k):
    raise E.Unsupported("polynomial fit of symbolic values (no stub installed)")


def _lintransform(name, real):
    """linear maps on coefficients (cheb2poly & co.): matrix from unit vectors"""

    def f(c):
        cs = list(S.obj(c))
        # numpy drops trailing zeros first
        while len(cs) > 1 and bool(cs[-1] == 0):
            cs.pop()
        n = len(cs)
        out = None
        for i in range(n):
            u = _np.zeros(n)
            u[i] = 1.0
            col = _np.zeros(n)
            r = real(u)
            col[: len(r)] = r
            t = [cs[i] * v for v in col]
            out = t if out is None else [a + b for a, b in zip(out, t)]
        return S.symarray(out)

    return f


def _polysym():
    d = {}
    d[_P.polyval] = _maybe(_horner, _P.polyval)
    d[_C.chebval] = _maybe(_clenshaw("cheb"), _C.chebval)
    d[_L.legval] = _maybe(_clenshaw("leg"), _L.legval)
    d[_np.polyval] = _maybe(_np_polyval, _np.polyval)
    for f in (_P.polyfit, _C.chebfit, _L.legfit, _np.polyfit):
        d[f] = _maybe(_nofit, f)
    for f in (_C.cheb2poly, _L.leg2poly, _C.poly2cheb, _L.poly2leg):
        d[f] = _maybe(_lintransform(f.__name__, f), f)
    return d


_EXTERNAL_HOMES = [
    "scipy.optimize",
    "scipy.interpolate",
    "scipy.spatial",
    "scipy.signal",
    "pynverse",
    "numpy.random",
    "numpy",
    "numpy.polynomial.polynomial",
    "numpy.polynomial.chebyshev",
    "numpy.polynomial.legendre",
    "json",
    "random",
    "time",
]


class Installer:
    """installs stand-ins; restore() puts everything back"""

    def __init__(self):
        self.undo = []
        self.stubs = {}  # id(original) -> (original, replacement)
        self.symbolic = False
        self.np = None

    def _set(self, o, n, v):
        if builtins.isinstance(o, dict):
            had = n in o
            old = o.get(n)
            self.undo.append((o, n, had, old, True))
            o[n] = v
        else:
            had = n in o.__dict__
            old = o.__dict__.get(n)
            self.undo.append((o, n, had, old, False))
            setattr(o, n, v)

    def setattr(self, o, n, v):
        self._set(o, n, v)

    def stub(self, original, replacement):
        """replace an external function wherever rascal reaches it"""
        self.stubs[id(original)] = (original, replacement)
        if self.np is not None:
            self._np_stub(original, replacement)
        for m in rascal_modules():
            for k, v in list(m.__dict__.items()):
                if v is original or getattr(v, "__wrapped_real__", None) is original:
                    self._set(m, k, replacement)
        for home in _EXTERNAL_HOMES:
            mod = sys.modules.get(home)
            if mod is None:
                continue
            for k, v in list(mod.__dict__.items()):
                if v is original:
                    if self.np is not None and home.split(".")[0] == "numpy":
                        continue  # reached through the proxy
                    self._set(mod, k, replacement)

    def _np_stub(self, original, replacement):
        n = getattr(original, "__name__", None)
        for proxy in self._np_proxies():
            if n and getattr(proxy._mod, n, None) is original:
                proxy._over[n] = replacement

    def _np_proxies(self):
        poly = self.np._subs["polynomial"]
        out = [self.np, poly]
        out += list(poly._subs.values())
        return out

    def install_symbolic(self, random):
        self.symbolic = True
        np_ = S.make_np(random)
        poly = np_._subs["polynomial"]
        for sub in ("polynomial", "chebyshev", "legendre"):
            poly._subs[sub] = S.NPModule(getattr(_np.polynomial, sub))
        self.np = np_
        proxies = {id(_np): np_, id(_np.polynomial): poly}
        for sub, p in poly._subs.items():
            proxies[id(p._mod)] = p
        if random is not None:
            proxies[id(_np.random)] = random
        for orig, rep in _polysym().items():
            self._np_stub(orig, rep)
        polysym = {id(o): r for o, r in _polysym().items()}
        mp = MathProxy()
        for m in rascal_modules():
            for k, v in list(m.__dict__.items()):
                if k.startswith("__"):
                    continue
                if id(v) in proxies:
                    self._set(m, k, proxies[id(v)])
                elif v is math:
                    self._set(m, k, mp)
                elif id(v) in polysym:
                    self._set(m, k, polysym[id(v)])
                elif builtins.isinstance(v, types.ModuleType):
                    if v.__name__.startswith("numpy"):
                        self._set(m, k, S.NPModule(v))
                elif callable(v) and getattr(_np, getattr(v, "__name__", "?") or "?", None) is v and not builtins.isinstance(v, type):
                    self._set(m, k, getattr(np_, v.__name__))
                elif random is not None and getattr(v, "__self__", None) is getattr(_np.random.choice, "__self__", 0) and hasattr(v, "__name__"):
                    self._set(m, k, getattr(random, v.__name__))
            for n, v in (
                ("float", FLOATP),
                ("int", INTP),
                ("isinstance", sym_isinstance),
                ("min", sym_min),
                ("max", sym_max),
                ("sum", sym_sum),
            ):
                if n not in m.__dict__:
                    self._set(m, n, v)

    def install_random(self, random):
        """concrete replay: numpy.random gives the model's values"""
        for n in ("choice", "random", "random_sample", "rand", "uniform", "randint", "permutation", "seed", "shuffle"):
            orig = getattr(_np.random, n)
            try:
                rep = getattr(random, n)
            except (AttributeError, E.Unsupported):
                continue
            self.stub(orig, rep)

    def restore(self):
        for o, n, had, old, isd in reversed(self.undo):
            if isd:
                if had:
                    o[n] = old
                else:
                    o.pop(n, None)
            elif had:
                setattr(o, n, old)
            else:
                try:
                    delattr(o, n)
                except AttributeError:
                    pass
        self.undo = []
        self.np = None
