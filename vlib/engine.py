"""Symbolic execution engine.

The real Python functions of /repo/src/rascal are executed with symbolic
numbers (z3 real terms) in place of floats.  Every place where the code looks
at the truth value of a symbolic condition is a branch: the solver says which
outcomes are possible and each possible one is executed (depth first, by
re-execution with a recorded decision prefix).  At the end of a path the
harness' assertions are handed to the solver together with the path condition.
"""
import os
import sys
import time
from fractions import Fraction
import math
import traceback

_VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
try:
    import z3
except ImportError:
    sys.path.append(_VT)
    try:
        import z3
    finally:
        sys.path.remove(_VT)


class Unsupported(Exception):
    """The engine cannot encode what the code does."""


class PathAbort(BaseException):
    """This path ends here (infeasible assumption / violation recorded)."""


class Budget(BaseException):
    """Out of the path or time budget."""


CTX = None  # the active context


def ctx():
    return CTX


# --------------------------------------------------------------------------
# lifting
# --------------------------------------------------------------------------


def frac(x):
    """Decimal ('as written') value of a concrete number."""
    if isinstance(x, bool) or type(x).__name__ in ("bool_", "bool"):
        return Fraction(int(x))
    if isinstance(x, int):
        return Fraction(x)
    if isinstance(x, Fraction):
        return x
    if type(x).__module__ == "numpy" and "int" in type(x).__name__:
        return Fraction(int(x))
    return Fraction(repr(float(x)))


def rv(x):
    f = frac(x)
    return z3.Q(f.numerator, f.denominator) if f.denominator != 1 else z3.RealVal(f.numerator)


def is_nonfinite(x):
    if isinstance(x, Sym):
        return False
    try:
        return not math.isfinite(x)
    except (TypeError, OverflowError):
        return False


def is_number(x):
    """one number, symbolic or not (also an array of one)"""
    if isinstance(x, Sym):
        return not isinstance(x, SymText)
    if x is None or isinstance(x, (str, bytes, list, tuple, dict)):
        return False
    if hasattr(x, "dtype") and hasattr(x, "ndim"):
        if x.ndim:
            return x.size == 1 and is_number(x.reshape(-1)[0])
        if x.dtype == object:
            return is_number(x.item())
    try:
        float(x)
    except (TypeError, ValueError):
        return False
    except OverflowError:
        pass
    return True


def plain_equal(a, b):
    try:
        r = a == b
        return r if isinstance(r, Sym) else bool(r)
    except (TypeError, ValueError):
        return False


def lift(x):
    if isinstance(x, SymNum):
        return x.e
    if isinstance(x, SymBool):
        return z3.If(x.e, z3.RealVal(1), z3.RealVal(0))
    if type(x).__module__ == "numpy" and getattr(x, "shape", None) == ():
        x = x.item()
        if isinstance(x, Sym):
            return lift(x)
    if isinstance(x, (int, float, Fraction)):
        return rv(x)
    raise Unsupported("cannot lift %r" % (type(x),))


def is_num(x):
    if isinstance(x, (int, float, Fraction, Sym)):
        return True
    return type(x).__module__ == "numpy" and getattr(x, "shape", None) == () and (
        getattr(x, "dtype", None) is not None and x.dtype.kind in "biuf"
    )


def mk(e):
    return SymNum(e)


def mkb(e):
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def tob(x):
    """to z3 Bool"""
    if isinstance(x, SymBool):
        return x.e
    if isinstance(x, SymNum):
        return x.e != 0
    return z3.BoolVal(bool(x))


def _np_array(o):
    """a list next to a number: numpy's numbers turn it into an array"""
    from . import symnp

    return symnp.symarray(o)


class Sym:
    __array_priority__ = -1000.0
    ndim = 0
    shape = ()
    size = 1

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def copy(self):
        return self

    def item(self):
        return self

    def _as_array(self):
        import numpy

        from . import symnp

        a = numpy.empty((), dtype=object)
        a[()] = self
        return a.view(symnp.SymArray)

    def reshape(self, *shape, **k):
        return self._as_array().reshape(*shape)

    def ravel(self, *a):
        return self._as_array().reshape(-1)

    flatten = ravel

    def tolist(self):
        return self

    def __reduce__(self):
        raise Unsupported("pickling a symbolic value")

    def __hash__(self):
        return 0x5EED

    def astype(self, t, *a, **k):
        from . import symnp

        return symnp.f_astype(self._as_array(), t).reshape(-1)[0]

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    @property
    def T(self):
        return self


class SymBool(Sym):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return CTX.branch(self.e)

    def __invert__(self):
        return mkb(z3.Not(self.e))

    def logical_not(self):
        return mkb(z3.Not(self.e))

    def _bin(self, o, f, numf):
        if isinstance(o, SymNum):
            return numf(SymNum(lift(self)), o)
        if isinstance(o, SymBool) or isinstance(o, bool) or type(o).__name__ == "bool_":
            return mkb(f(self.e, tob(o)))
        return NotImplemented

    def __and__(self, o):
        if isinstance(o, (SymBool, bool)) or type(o).__name__ == "bool_":
            return mkb(z3.And(self.e, tob(o)))
        return NotImplemented

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (SymBool, bool)) or type(o).__name__ == "bool_":
            return mkb(z3.Or(self.e, tob(o)))
        return NotImplemented

    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, (SymBool, bool)) or type(o).__name__ == "bool_":
            return mkb(z3.Xor(self.e, tob(o)))
        return NotImplemented

    __rxor__ = __xor__

    def __eq__(self, o):
        if isinstance(o, SymBool) or isinstance(o, bool) or type(o).__name__ == "bool_":
            return mkb(self.e == tob(o))
        return SymNum(lift(self)) == o

    def __ne__(self, o):
        r = self.__eq__(o)
        return ~r if isinstance(r, SymBool) else (not r)

    __hash__ = Sym.__hash__

    # numeric use (np.sum(mask) etc.)
    def num(self):
        return SymNum(lift(self))

    def __add__(self, o):
        return self.num() + o

    __radd__ = __add__

    def __sub__(self, o):
        return self.num() - o

    def __rsub__(self, o):
        return o - self.num()

    def __mul__(self, o):
        return self.num() * o

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self.num() / o

    def __rtruediv__(self, o):
        return o / self.num()

    def __neg__(self):
        return -self.num()

    def __lt__(self, o):
        return self.num() < o

    def __le__(self, o):
        return self.num() <= o

    def __gt__(self, o):
        return self.num() > o

    def __ge__(self, o):
        return self.num() >= o

    def __int__(self):
        return int(bool(self))

    def __index__(self):
        return int(bool(self))

    def __float__(self):
        return float(bool(self))

    def __repr__(self):
        return "SymBool(%s)" % (self.e,)

    def any(self, *a, **k):
        return self

    all = any


class SymText(Sym):
    """a number in a text field: compares as text until it is converted
    (the texts' order is approximated by that of the leading digits; on code
    that converts first, it plays no part)"""

    __slots__ = ("num",)

    def __init__(self, num):
        self.num = num

    def key(self):
        v = lift(self.num)
        k = v / 10000
        for p in (1000, 100, 10, 1):
            k = z3.If(v < 10 * p, v / p, k)
        return k

    def _text(self, o, op):
        if isinstance(o, SymText):
            a, b = self.key(), o.key()
            return mkb({"lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[op])
        if isinstance(o, str):
            raise Unsupported("comparing a text field with a text")
        return NotImplemented

    def __lt__(self, o):
        return self._text(o, "lt")

    def __le__(self, o):
        return self._text(o, "le")

    def __gt__(self, o):
        return self._text(o, "gt")

    def __ge__(self, o):
        return self._text(o, "ge")

    def __eq__(self, o):
        if isinstance(o, SymText):
            return self.num == o.num
        if isinstance(o, str):
            raise Unsupported("comparing a text field with a text")
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return ~r if isinstance(r, SymBool) else not r

    __hash__ = Sym.__hash__

    def __float__(self):
        return self.num.__float__() if isinstance(self.num, Sym) else float(self.num)


def _cmp(op):
    def f(self, o):
        if isinstance(o, str) or o is None:
            if op == "eq":
                return False
            if op == "ne":
                return True
            return NotImplemented
        if not is_num(o):
            return NotImplemented
        if is_nonfinite(o):
            if o != o:
                return op == "ne"
            big = o > 0
            return {"lt": big, "le": big, "gt": not big, "ge": not big, "eq": False, "ne": True}[op]
        b = lift(o)
        a = self.e
        return mkb({"lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b, "eq": a == b, "ne": a != b}[op])

    return f


FORMATTED = {}  # numbers written into a text


class SymNum(Sym):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __add__(self, o):
        if not is_num(o):
            if isinstance(o, (list, tuple)):
                a = _np_array(o)
                return a + self
            return NotImplemented
        if is_nonfinite(o):
            return o
        return mk(self.e + lift(o))

    __radd__ = __add__

    def __sub__(self, o):
        if not is_num(o):
            if isinstance(o, (list, tuple)):
                a = _np_array(o)
                return self - a
            return NotImplemented
        if is_nonfinite(o):
            return -o
        return mk(self.e - lift(o))

    def __rsub__(self, o):
        if not is_num(o):
            if isinstance(o, (list, tuple)):
                a = _np_array(o)
                return a - self
            return NotImplemented
        if is_nonfinite(o):
            return o
        return mk(lift(o) - self.e)

    def __mul__(self, o):
        if not is_num(o):
            if isinstance(o, (list, tuple)):
                a = _np_array(o)
                return a * self
            return NotImplemented
        if is_nonfinite(o):
            if o != o:
                return o
            if self > 0:
                return o
            if self < 0:
                return -o
            return float("nan")
        if not isinstance(o, Sym) and o == 0:
            return 0.0
        return mk(self.e * lift(o))

    __rmul__ = __mul__

    def __truediv__(self, o):
        if not is_num(o):
            if isinstance(o, (list, tuple)):
                a = _np_array(o)
                return self / a
            return NotImplemented
        if is_nonfinite(o):
            return o if o != o else 0.0
        return div(self, o)

    def __rtruediv__(self, o):
        if not is_num(o):
            if isinstance(o, (list, tuple)):
                a = _np_array(o)
                return a / self
            return NotImplemented
        if is_nonfinite(o):
            if o != o:
                return o
            return o if self >= 0 else -o
        return div(o, self)

    def __floordiv__(self, o):
        q = div(self, o)
        return q.__floor__() if isinstance(q, SymNum) else q

    def __mod__(self, o):
        q = self.__floordiv__(o)
        return self - q * o

    def __neg__(self):
        return mk(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return mk(z3.If(self.e >= 0, self.e, -self.e))

    absolute = fabs = __abs__

    def __pow__(self, n):
        if isinstance(n, Sym):
            raise Unsupported("symbolic exponent")
        if getattr(n, "ndim", 0):
            return NotImplemented
        f = frac(n)
        if f.denominator == 1:
            k = f.numerator
            if k == 0:
                return 1.0
            e = self.e
            r = e
            for _ in range(abs(k) - 1):
                r = r * e
            if k > 0:
                return mk(r)
            return div(1.0, mk(r))
        if f.denominator == 2:
            s = self.sqrt()
            return s ** int(f.numerator)
        raise Unsupported("exponent %s" % n)

    def __rpow__(self, b):
        raise Unsupported("symbolic exponent")

    __lt__ = _cmp("lt")
    __le__ = _cmp("le")
    __gt__ = _cmp("gt")
    __ge__ = _cmp("ge")
    __eq__ = _cmp("eq")
    __ne__ = _cmp("ne")
    __hash__ = Sym.__hash__

    def __bool__(self):
        return CTX.branch(self.e != 0)

    def sqrt(self):
        r = root(self.e)
        if r is not None:
            return r
        if not nonneg(self.e) and self < 0:
            return float("nan")
        return SymSqrt(self.e)

    def exp(self):
        return CTX.uf("exp", self.e)

    def log10(self):
        if self > 0:
            return CTX.uf("log10", self.e)
        if self == 0:
            return float("-inf")
        return float("nan")

    def log(self):
        if self > 0:
            return CTX.uf("log", self.e)
        if self == 0:
            return float("-inf")
        return float("nan")

    def square(self):
        return mk(self.e * self.e)

    def sign(self):
        return mk(z3.If(self.e > 0, z3.RealVal(1), z3.If(self.e < 0, z3.RealVal(-1), z3.RealVal(0))))

    def __floor__(self):
        return mk(z3.ToReal(z3.ToInt(self.e)))

    floor = __floor__

    def __ceil__(self):
        return mk(-z3.ToReal(z3.ToInt(-self.e)))

    ceil = __ceil__

    def rint(self):
        # half away matters only at ties: numpy rounds half to even; ties are
        # resolved exactly here
        fl = z3.ToInt(self.e)
        d = self.e - z3.ToReal(fl)
        r = z3.If(d < z3.Q(1, 2), fl, z3.If(d > z3.Q(1, 2), fl + 1, z3.If(fl % 2 == 0, fl, fl + 1)))
        return mk(z3.ToReal(r))

    def __round__(self, n=None):
        if n is None or n == 0:
            return self.rint()
        s = Fraction(10) ** int(n)
        return (self * s).rint() / s

    round = __round__

    def __trunc__(self):
        return mk(z3.ToReal(z3.If(self.e >= 0, z3.ToInt(self.e), -z3.ToInt(-self.e))))

    trunc = __trunc__

    def __int__(self):
        return CTX.concretize_int(self.__trunc__().e)

    def __index__(self):
        return CTX.concretize_int(self.e)

    def __float__(self):
        return CTX.concretize(self.e)

    def isnan(self):
        return False

    def isfinite(self):
        return True

    def isinf(self):
        return False

    def __repr__(self):
        return "SymNum(%s)" % str(self.e)[:80]

    def __format__(self, spec):
        t = "<sym%d>" % self.e.get_id()
        FORMATTED[t] = self
        return t

    def max(self, *a, **k):
        return self

    min = sum = mean = max

    def std(self, *a, **k):
        return 0.0


def div(a, b):
    if isinstance(b, Sym):
        be = lift(b)
        if CTX.branch(be == 0):
            if isinstance(a, Sym):
                if a > 0:
                    return float("inf")
                if a < 0:
                    return float("-inf")
                return float("nan")
            a = float(a)
            return float("nan") if a == 0 else (float("inf") if a > 0 else float("-inf"))
        return mk(lift(a) / be)
    if b == 0:
        if a > 0:
            return float("inf")
        if a < 0:
            return float("-inf")
        return float("nan")
    return mk(lift(a) / lift(b))


def ite(c, a, b):
    """merged conditional"""
    if isinstance(c, SymBool):
        if is_nonfinite(a) or is_nonfinite(b) or not (is_num(a) and is_num(b)):
            return a if bool(c) else b
        if isinstance(a, (SymBool, bool)) and isinstance(b, (SymBool, bool)):
            return mkb(z3.If(c.e, tob(a), tob(b)))
        return mk(z3.If(c.e, lift(a), lift(b)))
    return a if c else b


# --------------------------------------------------------------------------
# contexts
# --------------------------------------------------------------------------


class Stats:
    def __init__(self):
        self.paths = 0
        self.branches = 0
        self.forks = 0
        self.queries = 0
        self.solver_s = 0.0
        self.checks = 0
        self.check_queries = 0
        self.trivial_checks = 0
        self.concretizations = 0
        self.unknown = 0
        self.validated = 0
        self.reached = {}

    def add(self, o):
        for k, v in o.items() if isinstance(o, dict) else o.__dict__.items():
            if k == "reached":
                for a, b in v.items():
                    self.reached[a] = self.reached.get(a, 0) + b
            else:
                setattr(self, k, getattr(self, k) + v)


class _Watchdog:
    """interrupts a query that overruns its time limit (z3 does not always
    heed its own timeout in nonlinear arithmetic)"""

    def __init__(self):
        self.pid = None
        self.deadline = None
        self.on_stuck = None

    def _loop(self):
        while True:
            time.sleep(0.5)
            d = self.deadline
            if d is not None and time.time() > d:
                z3.main_ctx().interrupt()
                if self.on_stuck and time.time() > d + 8:
                    self.on_stuck()

    def check(self, solver, limit_s, *assumptions):
        import os
        import threading

        if self.pid != os.getpid():
            self.pid = os.getpid()
            threading.Thread(target=self._loop, daemon=True).start()
        self.deadline = time.time() + limit_s
        try:
            return solver.check(*assumptions)
        except z3.Z3Exception:
            return z3.unknown
        finally:
            self.deadline = None


WATCH = _Watchdog()


def nonneg(e):
    """syntactically not negative (sums of squares and the like)"""
    if z3.is_rational_value(e):
        return e.numerator_as_long() >= 0
    k = e.decl().kind()
    ch = e.children()
    if k == z3.Z3_OP_ADD:
        return all(nonneg(c) for c in ch)
    if k == z3.Z3_OP_MUL:
        left = []
        for c in ch:
            if nonneg(c):
                continue
            for i, d in enumerate(left):
                if d.eq(c):
                    del left[i]
                    break
            else:
                left.append(c)
        return not left
    if k == z3.Z3_OP_POWER:
        return z3.is_rational_value(ch[1]) and ch[1].numerator_as_long() % 2 == 0 and ch[1].denominator_as_long() == 1
    if k == z3.Z3_OP_ITE:
        return nonneg(ch[1]) and nonneg(ch[2])
    if k == z3.Z3_OP_DIV:
        return nonneg(ch[0]) and z3.is_rational_value(ch[1]) and ch[1].numerator_as_long() > 0
    return False


def _sqrt_cmp(op, base):
    def f(self, o):
        if isinstance(o, SymSqrt):
            a, b = self.arg, o.arg
            return mkb({"lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b, "eq": a == b, "ne": a != b}[op])
        if is_num(o) and not is_nonfinite(o):
            c = lift(o)
            sq = c * c
            a = self.arg
            r = {
                "lt": lambda: z3.And(c > 0, a < sq), "le": lambda: z3.And(c >= 0, a <= sq), "gt": lambda: z3.Or(c < 0, a > sq),
                "ge": lambda: z3.Or(c <= 0, a >= sq), "eq": lambda: z3.And(c >= 0, a == sq), "ne": lambda: z3.Or(c < 0, a != sq),
            }[op]()
            return mkb(r)
        return base(self, o)

    return f


def monomials(e, limit=60):
    """{((variable, power), ...): coefficient} of a polynomial, or None"""
    if z3.is_rational_value(e):
        return {(): Fraction(e.numerator_as_long(), e.denominator_as_long())}
    k = e.decl().kind()
    if e.num_args() == 0:
        return {((e.get_id(), e, 1),): Fraction(1)}
    if k == z3.Z3_OP_ADD:
        out = {}
        for a in e.children():
            m = monomials(a, limit)
            if m is None:
                return None
            for t, c in m.items():
                out[t] = out.get(t, 0) + c
            if len(out) > limit:
                return None
        return {t: c for t, c in out.items() if c}
    if k in (z3.Z3_OP_MUL, z3.Z3_OP_POWER):
        fs = e.children()
        if k == z3.Z3_OP_POWER:
            if not z3.is_rational_value(fs[1]) or fs[1].denominator_as_long() != 1 or not 0 < fs[1].numerator_as_long() < 9:
                return None
            fs = [fs[0]] * fs[1].numerator_as_long()
        out = {(): Fraction(1)}
        for f in fs:
            m = monomials(f, limit)
            if m is None:
                return None
            new = {}
            for t, c in out.items():
                for u, d in m.items():
                    w = {}
                    for i, v, n in t + u:
                        w[i] = (v, w[i][1] + n if i in w else n)
                    key = tuple((i, w[i][0], w[i][1]) for i in sorted(w))
                    new[key] = new.get(key, 0) + c * d
            if len(new) > limit:
                return None
            out = {t: c for t, c in new.items() if c}
        return out
    return None


def root(e):
    """square root of a perfect square monomial, without a new variable"""
    m = monomials(z3.simplify(e))
    if m is None or len(m) != 1:
        return None
    (t, c), = m.items()
    if c < 0 or any(n % 2 for _, _, n in t):
        return None
    a, b = math.isqrt(c.numerator), math.isqrt(c.denominator)
    if a * a != c.numerator or b * b != c.denominator:
        return None
    r = SymNum(z3.Q(a, b))
    for _, v, n in t:
        x = SymNum(v) if CTX.branch(v >= 0) else -SymNum(v)
        for _ in range(n // 2):
            r = x if r.e.eq(z3.RealVal(1)) else r * x
    return r


class SymSqrt(SymNum):
    """square root; compared through squares, a solver variable only when
    calculated with"""

    __slots__ = ("arg",)

    def __init__(self, arg):
        self.arg = arg

    @property
    def e(self):
        return CTX.sqrt(self.arg).e

    def __pow__(self, n):
        if not isinstance(n, Sym) and frac(n) == 2:
            return mk(self.arg)
        return SymNum.__pow__(self, n)

    def square(self):
        return mk(self.arg)

    def __abs__(self):
        return self

    absolute = fabs = __abs__

    __lt__ = _sqrt_cmp("lt", SymNum.__lt__)
    __le__ = _sqrt_cmp("le", SymNum.__le__)
    __gt__ = _sqrt_cmp("gt", SymNum.__gt__)
    __ge__ = _sqrt_cmp("ge", SymNum.__ge__)
    __eq__ = _sqrt_cmp("eq", SymNum.__eq__)
    __ne__ = _sqrt_cmp("ne", SymNum.__ne__)
    __hash__ = Sym.__hash__

    def __bool__(self):
        return CTX.branch(self.arg != 0)


class SymCtx:
    symbolic = True

    def __init__(self, prefix, stats, opts):
        self.tag = ""  # put before the name of each input
        self.prefix = prefix  # list of [value, kind] kind: 'forced' | 'open' | 'done'
        self.pos = 0
        self.stats = stats
        self.opts = opts
        self.timeout = opts.get("timeout_ms", 20000)
        self.solver = z3.Solver()
        self.solver.set("timeout", self.timeout)
        self.solver.set("random_seed", opts.get("seed", 1) & 0x7FFFFFFF)
        self.inputs = {}  # name -> z3 const
        self.input_order = []
        self.model = None
        self.pending = []  # (label, expr)
        self.ufs = {}
        self.sqrts = {}
        self.singles = {}
        self.nfresh = 0
        self.notes = []
        self.const_false = []

    # -- solver ---------------------------------------------------------
    def _check(self, *assumptions):
        t = time.time()
        self.stats.queries += 1
        r = WATCH.check(self.solver, self.timeout / 1000.0 + 2, *assumptions)
        self.stats.solver_s += time.time() - t
        if r == z3.unknown:
            r = self._fallback(assumptions)
        return r

    def _fallback(self, assumptions):
        """second try in a fresh nonlinear solver"""
        t = time.time()
        s = z3.Tactic("qfnra-nlsat").solver() if not self.opts.get("no_nlsat") else z3.Solver()
        s.set("timeout", self.timeout)
        s.add(*self.solver.assertions())
        s.add(*assumptions)
        r = WATCH.check(s, self.timeout / 1000.0 + 2)
        self._fb_model = s.model() if r == z3.sat else None
        self.stats.queries += 1
        self.stats.solver_s += time.time() - t
        if r == z3.unknown:
            self.stats.unknown += 1
        return r

    def _get_model(self):
        try:
            return self.solver.model()
        except z3.Z3Exception:
            return getattr(self, "_fb_model", None)

    def add(self, e):
        self.solver.add(e)
        if self.model is not None:
            v = self.model.eval(e, model_completion=True)
            if not z3.is_true(v):
                self.model = None

    def assume_now(self, e):
        self.add(e)
        if self.model is None:
            r = self._check()
            if r == z3.unsat:
                raise PathAbort("assumption infeasible")
            if r == z3.sat:
                self.model = self._get_model()

    def branch(self, e):
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        self.stats.branches += 1
        if self.pos < len(self.prefix):
            v, kind = self.prefix[self.pos][:2]
            self.pos += 1
            self.solver.add(e if v else z3.Not(e))
            self.model = None
            return v
        dl = self.opts.get("deadline")
        if dl and time.time() > dl:
            raise Budget("time")
        if len(self.prefix) > self.opts.get("max_depth", 4000):
            raise Budget("depth")
        if self.model is None:
            r = self._check()
            if r == z3.unsat:
                raise PathAbort("infeasible")
            if r == z3.sat:
                self.model = self._get_model()
        v = None
        if self.model is not None:
            mv = self.model.eval(e, model_completion=True)
            if z3.is_true(mv):
                v = True
            elif z3.is_false(mv):
                v = False
        if v is None:
            r = self._check(e)
            if r == z3.sat:
                v = True
                self.model = self._get_model()
            elif r == z3.unsat:
                v = False
                # the path is feasible, so not e is
                self.prefix.append([False, "forced"])
                self.pos += 1
                self.solver.add(z3.Not(e))
                return False
            else:
                v = True
                self.model = None
        other = z3.Not(e) if v else e
        r = self._check(other)
        if r == z3.unsat:
            self.prefix.append([v, "forced"])
        else:
            self.stats.forks += 1
            self.prefix.append([v, "open"])
        self.pos += 1
        self.solver.add(e if v else z3.Not(e))
        return v

    # -- values -----------------------------------------------------------
    def real(self, name, lo=None, hi=None, memo=False):
        name = self.tag + name
        if name in self.inputs:
            if memo:
                return SymNum(self.inputs[name])
            raise Unsupported("duplicate input " + name)
        v = z3.Real(name)
        self.inputs[name] = v
        self.input_order.append(name)
        if lo is not None:
            self.solver.add(v >= rv(lo))
        if hi is not None:
            self.solver.add(v <= rv(hi))
        self.model = None
        return SymNum(v)

    def int(self, name, lo=None, hi=None):
        """an integer valued number, kept symbolic"""
        name = self.tag + name
        v = z3.Int(name)
        self.inputs[name] = v
        self.input_order.append(name)
        if lo is not None:
            self.solver.add(v >= lo)
        if hi is not None:
            self.solver.add(v <= hi)
        self.model = None
        return SymNum(z3.ToReal(v))

    def flag(self, name):
        name = self.tag + name
        v = z3.Bool(name)
        self.inputs[name] = v
        self.input_order.append(name)
        return SymBool(v)

    def choice(self, name, options, memo=False):
        """concrete element of `options`, every one explored"""
        name = self.tag + name
        options = list(options)
        if len(options) == 1:
            return options[0]
        v = z3.Int(name)
        if name in self.inputs:
            if not memo:
                raise Unsupported("duplicate input " + name)
        else:
            self.inputs[name] = v
            self.input_order.append(name)
            self.solver.add(v >= 0, v < len(options))
            self.model = None
        for i in range(len(options) - 1):
            if self.branch(v == i):
                return options[i]
        return options[-1]

    def fresh(self, tag="t"):
        self.nfresh += 1
        return z3.Real("%s!%d" % (tag, self.nfresh))

    def sqrt(self, e):
        key = e.get_id()
        for old, s in self.sqrts.get(key, []):
            if old.eq(e):
                return SymNum(s)
        s = self.fresh("sqrt")
        self.solver.add(s >= 0, s * s == e)
        self.model = None
        self.sqrts.setdefault(key, []).append((e, s))
        return SymNum(s)

    def uf(self, kind, e):
        """transcendental function: fresh value constrained by the function's
        sign, fixed point and monotonicity (pairwise)"""
        e = z3.simplify(e)
        lst = self.ufs.setdefault(kind, [])
        for a, r in lst:
            if a.eq(e):
                return SymNum(r)
        r = self.fresh(kind)
        s = self.solver
        if kind == "exp":
            s.add(r > 0, z3.Implies(e == 0, r == 1), z3.Implies(e < 0, r < 1), z3.Implies(e > 0, r > 1))
            s.add(r >= 1 + e)
        else:
            s.add(z3.Implies(e == 1, r == 0), z3.Implies(e < 1, r < 0), z3.Implies(e > 1, r > 0))
        for a, q in lst:
            s.add(z3.Implies(a < e, q < r), z3.Implies(a > e, q > r), z3.Implies(a == e, q == r))
        lst.append((e, r))
        self.model = None
        return SymNum(r)

    def single(self, v):
        """v in single precision"""
        key = v.e.get_id()
        if key not in self.singles:
            self.nfresh += 1
            cut = z3.Bool("cut!%d" % self.nfresh)
            k = z3.Int("cutk!%d" % self.nfresh)
            self.solver.add(z3.Implies(cut, v.e == z3.ToReal(k) + z3.Q(1, 10)))
            self.model = None
            r = z3.If(cut, v.e * (1 + z3.Q(1, 10 ** 8)), v.e)
            self.singles[key] = (v, SymNum(r))
        return self.singles[key][1]

    def concretize_int(self, e):
        e = z3.simplify(e)
        if z3.is_rational_value(e):
            f = Fraction(e.numerator_as_long(), e.denominator_as_long())
            if f.denominator == 1:
                return int(f)
        n = 0
        while True:
            if self.pos < len(self.prefix):
                # replay: candidate values were recorded
                cand = self.prefix[self.pos][2] if len(self.prefix[self.pos]) > 2 else None
            else:
                cand = None
            if cand is None:
                if self.model is None:
                    r = self._check()
                    if r != z3.sat:
                        raise Budget("int concretization")
                    self.model = self._get_model()
                mv = self.model.eval(e, model_completion=True)
                f = val(mv)
                cand = int(f)
                if f != cand:
                    raise Unsupported("non integer used as an integer")
            p0 = self.pos
            r = self.branch_tag(e == rv(cand), cand)
            if r:
                return cand
            n += 1
            if n > 64:
                raise Budget("int concretization")

    def wide_int(self, e):
        """whether the integer `e` may be far from 0: it is then kept symbolic (its
        values cannot be tried one by one); decided once per path"""
        e = z3.simplify(e)
        if z3.is_rational_value(e):
            return False
        if self.pos < len(self.prefix) and self.prefix[self.pos][1] == "forced":
            w = self.prefix[self.pos][2]
        else:
            w = self._check(z3.Or(e > 48, e < -48)) != z3.unsat
            self.prefix.append([True, "forced", w])
        self.pos += 1
        return w

    def branch_tag(self, e, cand):
        s = z3.simplify(e)
        if z3.is_true(s):
            return True
        n0 = len(self.prefix)
        inrep = self.pos < len(self.prefix)
        r = self.branch(e)
        if not inrep and len(self.prefix) > n0:
            self.prefix[-1].append(cand)
        return r

    def concretize(self, e):
        """pin a symbolic real to one value: loses completeness (counted)"""
        e = z3.simplify(e)
        if z3.is_rational_value(e):
            return float(Fraction(e.numerator_as_long(), e.denominator_as_long()))
        if self.opts.get("strict"):
            raise Unsupported("concretization: " + "".join(traceback.format_stack(limit=8)))
        self.stats.concretizations += 1
        if len(self.notes) < 3:
            self.notes.append("concretised at: " + "".join(traceback.format_stack(limit=6)[:-1])[-600:])
        if self.pos < len(self.prefix) and len(self.prefix[self.pos]) > 2:
            cand = self.prefix[self.pos][2]
            self.pos += 1
            self.solver.add(e == rv(cand))
            self.model = None
            return float(cand)
        if self.model is None:
            if self._check() != z3.sat:
                raise Budget("concretization")
            self.model = self._get_model()
        f = float(val(self.model.eval(e, model_completion=True)))
        self.solver.add(e == rv(f))
        self.model = None
        if self._check() != z3.sat:
            raise PathAbort("rounded concretization infeasible")
        self.prefix.append([True, "forced", f])
        self.pos += 1
        return f

    # -- harness API ------------------------------------------------------
    def assume(self, c):
        if isinstance(c, SymBool):
            self.assume_now(c.e)
        elif not c:
            raise PathAbort("assume")

    def check(self, c, label):
        self.stats.checks += 1
        if isinstance(c, SymBool):
            self.pending.append((label, c.e))
        elif isinstance(c, SymNum):
            self.pending.append((label, c.e != 0))
        elif not c:
            self.pending.append((label, z3.BoolVal(False)))
        else:
            self.stats.trivial_checks += 1

    def reach(self, label="end"):
        self.stats.reached[label] = self.stats.reached.get(label, 0) + 1

    # helpers shared with the concrete context
    def all(self, xs):
        xs = [tob(x) for x in xs]
        return mkb(z3.And(*xs)) if xs else True

    def any(self, xs):
        xs = [tob(x) for x in xs]
        return mkb(z3.Or(*xs)) if xs else False

    def implies(self, a, b):
        return mkb(z3.Implies(tob(a), tob(b)))

    def iff(self, a, b):
        return mkb(tob(a) == tob(b))

    def eq(self, a, b, tol=1e-6):
        """numerically equal: |a-b| <= tol (absolute)"""
        if not (is_number(a) and is_number(b)):
            return False
        if is_nonfinite(a) or is_nonfinite(b):
            if isinstance(a, Sym) or isinstance(b, Sym):
                return False
            return a == b or (a != a and b != b)
        if not isinstance(a, Sym) and not isinstance(b, Sym):
            return abs(float(a) - float(b)) <= tol
        if isinstance(a, SymSqrt) and isinstance(b, SymSqrt):
            d = a.arg - b.arg
            if z3.simplify(d, som=True).eq(z3.RealVal(0)):
                return True
            t = rv(tol)
            return mkb(z3.And(d <= t, d >= -t))
        ea, eb = lift(a), lift(b)
        if ea.eq(eb) or z3.simplify(ea - eb, som=True).eq(z3.RealVal(0)):
            return True
        d = ea - eb
        t = rv(tol)
        return mkb(z3.And(d <= t, d >= -t))

    def same(self, a, b):
        """exactly equal"""
        if not (is_number(a) and is_number(b)):
            return plain_equal(a, b)
        if is_nonfinite(a) or is_nonfinite(b):
            return (not isinstance(a, Sym)) and (not isinstance(b, Sym)) and (a == b or (a != a and b != b))
        return mkb(lift(a) == lift(b))

    def ite(self, c, a, b):
        return ite(c, a, b)

    def count(self, xs):
        """how many of xs hold (symbolic number)"""
        t = 0
        for x in xs:
            t = t + (x.num() if isinstance(x, SymBool) else int(bool(x)))
        return t

    # -- end of path --------------------------------------------------------
    def flush(self):
        """returns None (all hold), ('violation', labels, inputs) or ('unknown', labels)"""
        if not self.pending:
            return None
        if self.opts.get("split"):
            return self._flush_each()
        neg = z3.Or(*[z3.Not(e) for _, e in self.pending])
        self.stats.check_queries += 1
        self.solver.push()
        self.solver.add(neg)
        r = self._check()
        if r == z3.unknown and len(self.pending) > 1:
            # one by one
            self.solver.pop()
            unk = []
            for lab, e in self.pending:
                self.solver.push()
                self.solver.add(z3.Not(e))
                r = self._check()
                if r == z3.sat:
                    m = self._get_model()
                    labels = [lab]
                    inp = self.pinned_inputs(m)
                    self.solver.pop()
                    return ("violation", labels, inp)
                if r == z3.unknown:
                    unk.append(lab)
                self.solver.pop()
            return ("unknown", unk) if unk else None
        if r == z3.unsat:
            self.solver.pop()
            return None
        if r == z3.unknown:
            self.solver.pop()
            return ("unknown", [l for l, _ in self.pending])
        m = self._get_model()
        inp = self.pinned_inputs(m)
        m2 = self._last_pin_model or m
        labels = [l for l, e in self.pending if not z3.is_true(m2.eval(e, model_completion=True))]
        self.solver.pop()
        return ("violation", labels, inp)

    def _flush_each(self):
        """one assertion at a time; those that hold help with the next"""
        unk = []
        for lab, e in self.pending:
            self.stats.check_queries += 1
            self.solver.push()
            self.solver.add(z3.Not(e))
            r = self._check()
            if r == z3.sat:
                inp = self.pinned_inputs(self._get_model())
                self.solver.pop()
                return ("violation", [lab], inp)
            self.solver.pop()
            if r == z3.unknown:
                unk.append(lab)
            else:
                self.solver.add(e)
        return ("unknown", unk) if unk else None

    def path_inputs(self):
        r = self._check()
        if r != z3.sat:
            return None
        return self.pinned_inputs(self._get_model())

    def pinned_inputs(self, m):
        """a model whose inputs are as short dyadic numbers as possible, so the
        concrete replay computes (nearly) without rounding"""
        s = self.solver
        s.push()
        self._last_pin_model = m
        t0 = time.time()
        s.set("timeout", 1500)
        try:
            for name in self.input_order:
                v = self.inputs[name]
                if v.sort() != z3.RealSort():
                    mv = self._last_pin_model.eval(v, model_completion=True)
                    s.add(v == mv)
                    continue
                f = val(self._last_pin_model.eval(v, model_completion=True))
                cands = []
                if f.denominator & (f.denominator - 1) == 0 and f.denominator <= 64:
                    s.add(v == rv(f))
                    continue
                for d in (1, 2, 4, 16, 64):
                    fl = Fraction(math.floor(f * d), d)
                    for c in (Fraction(round(f * d), d), fl, fl + Fraction(1, d)):
                        if c not in cands:
                            cands.append(c)
                if time.time() - t0 > self.opts.get("pin_s", 10):
                    cands = []
                for c in cands:
                    if WATCH.check(s, 12, v == rv(c)) == z3.sat:
                        self._last_pin_model = s.model()
                        s.add(v == rv(c))
                        break
                else:
                    fv = Fraction(float(f))
                    if WATCH.check(s, 12, v == rv(fv)) == z3.sat:
                        self._last_pin_model = s.model()
                        s.add(v == z3.Q(fv.numerator, fv.denominator))
        except z3.Z3Exception:
            pass
        finally:
            s.set("timeout", self.timeout)
            m = self._last_pin_model
            s.pop()
        out = {}
        for name in self.input_order:
            v = self.inputs[name]
            mv = m.eval(v, model_completion=True)
            if v.sort() == z3.BoolSort():
                out[name] = bool(z3.is_true(mv))
            elif v.sort() == z3.IntSort():
                out[name] = int(val(mv))
            else:
                out[name] = float(val(mv))
        return out


def val(mv):
    """Fraction of a model value"""
    if z3.is_algebraic_value(mv):
        mv = mv.approx(30)
    if z3.is_int_value(mv):
        return Fraction(mv.as_long())
    if z3.is_rational_value(mv):
        return Fraction(mv.numerator_as_long(), mv.denominator_as_long())
    raise Unsupported("model value %s" % mv)


class ConcCtx:
    """Replays a harness on plain floats with the given input values."""

    symbolic = False

    def __init__(self, inputs):
        self.values = dict(inputs)
        self.tag = ""
        self.failed = []
        self.checked = 0
        self.missing = []
        self.stats = Stats()

    def _get(self, name, default):
        name = self.tag + name
        if name not in self.values:
            self.missing.append(name)
            return default
        return self.values[name]

    def real(self, name, lo=None, hi=None, memo=False):
        d = 0.0
        if lo is not None:
            d = max(d, float(lo))
        if hi is not None:
            d = min(d, float(hi))
        return float(self._get(name, d))

    def int(self, name, lo=None, hi=None):
        return int(self._get(name, lo if lo is not None else 0))

    def flag(self, name):
        return bool(self._get(name, False))

    def choice(self, name, options, memo=False):
        options = list(options)
        if len(options) == 1:
            return options[0]
        return options[int(self._get(name, 0))]

    def assume(self, c):
        if not c:
            raise PathAbort("assume")

    def check(self, c, label):
        self.checked += 1
        if not c:
            self.failed.append(label)

    def reach(self, label="end"):
        pass

    def all(self, xs):
        return all(bool(x) for x in xs)

    def any(self, xs):
        return any(bool(x) for x in xs)

    def implies(self, a, b):
        return (not a) or bool(b)

    def iff(self, a, b):
        return bool(a) == bool(b)

    def eq(self, a, b, tol=1e-6):
        if not (is_number(a) and is_number(b)):
            return False
        a, b = float(a), float(b)
        if not (math.isfinite(a) and math.isfinite(b)):
            return a == b or (a != a and b != b)
        return abs(a - b) <= tol + 1e-9 * max(abs(a), abs(b))

    def same(self, a, b):
        if not (is_number(a) and is_number(b)):
            return plain_equal(a, b)
        a, b = float(a), float(b)
        return a == b or (a != a and b != b)

    def ite(self, c, a, b):
        return a if c else b

    def count(self, xs):
        return sum(1 for x in xs if x)


def set_ctx(c):
    global CTX
    CTX = c
    return c
