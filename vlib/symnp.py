"""numpy on symbolic numbers.

SymArray is a real numpy object array (all of numpy's indexing, reshaping,
broadcasting and concatenation machinery runs unmodified); ufuncs, reductions
and the order-dependent functions are given a symbolic reading here.  NP is a
stand-in for the numpy module, put into the modules under test for the time of
a symbolic run.
"""
import types
import numpy as _np
from . import engine as E
from .engine import Sym, SymNum, SymBool, Unsupported, ite, mkb, tob
import z3


def _is_sym(x):
    if isinstance(x, Sym):
        return True
    if isinstance(x, _np.ndarray):
        if x.dtype != object:
            return False
        if isinstance(x, SymArray):
            return True
        return any(isinstance(v, Sym) for v in x.flat)
    if isinstance(x, (list, tuple)):
        return any(_is_sym(v) for v in x)
    return False


def plain(x):
    return x.view(_np.ndarray) if isinstance(x, SymArray) else x


class ConcArray(_np.ndarray):
    """an ordinary array (no symbols in it) that can be indexed with symbolic
    masks and positions"""

    def __array_wrap__(self, out, context=None):
        return out[()] if out.ndim == 0 else _np.ndarray.__array_wrap__(self, out, context)

    def __getitem__(self, k):
        return _np.ndarray.__getitem__(self, fix_key(k) if _odd_key(k) else k)

    def __setitem__(self, k, v):
        _np.ndarray.__setitem__(self, fix_key(k) if _odd_key(k) else k, v)

    def __reduce__(self):
        return self.view(_np.ndarray).__reduce__()


def _odd_key(k):
    if isinstance(k, tuple):
        return any(_odd_key(x) for x in k)
    return isinstance(k, (Sym, SymArray)) or (isinstance(k, list) and any(isinstance(x, Sym) for x in k)) or (isinstance(k, _np.ndarray) and k.dtype == object)


def conc(r):
    if type(r) is _np.ndarray and r.dtype.kind in "fiub" and r.ndim:
        return r.view(ConcArray)
    if isinstance(r, tuple) and type(r) is tuple:
        return tuple(conc(x) for x in r)
    return r


def wrap(x):
    """object array -> SymArray; boolean/number arrays without symbols become
    ordinary arrays again"""
    if isinstance(x, _np.ndarray) and x.dtype == object:
        x = plain(x)
        if x.size and all(isinstance(v, (bool, _np.bool_)) for v in x.flat):
            return x.astype(bool).view(ConcArray)
        return x.view(SymArray)
    return x


def obj(x):
    """anything array-like -> plain object ndarray"""
    if isinstance(x, _np.ndarray):
        return plain(x).astype(object) if x.dtype != object else plain(x)
    if isinstance(x, (list, tuple)):
        return _obj_from_list(x)
    a = _np.empty((), dtype=object)
    a[()] = x
    return a


def _obj_from_list(x):
    if len(x) == 0:
        return _np.empty((0,), dtype=object)
    if any(isinstance(v, (list, tuple, _np.ndarray)) and not (isinstance(v, _np.ndarray) and v.ndim == 0) for v in x):
        parts = [obj(v) for v in x]
        shp = parts[0].shape
        if any(p.shape != shp for p in parts):
            a = _np.empty((len(x),), dtype=object)
            for i, v in enumerate(x):
                a[i] = v
            return a
        return _np.stack(parts)
    a = _np.empty((len(x),), dtype=object)
    for i, v in enumerate(x):
        a[i] = v.item() if isinstance(v, _np.ndarray) else v
    return a


def symarray(x):
    return obj(x).copy().view(SymArray)


# ---------------------------------------------------------------------------
# scalar operations
# ---------------------------------------------------------------------------


def _f(x):
    """numpy-like scalar (floats divide by zero quietly)"""
    if isinstance(x, (int, float)) and not isinstance(x, bool):
        return _np.float64(x)
    return x


def _call(name, pyfallback=None):
    uf = getattr(_np, name)

    def f(a):
        if isinstance(a, Sym):
            m = getattr(a, name, None)
            if m is None:
                raise Unsupported("ufunc %s" % name)
            return m()
        return uf(a)

    return f


def s_div(a, b):
    if isinstance(a, Sym) or isinstance(b, Sym):
        return a / b
    with _np.errstate(all="ignore"):
        return _np.float64(a) / _np.float64(b)


def s_min(a, b):
    if isinstance(a, Sym) or isinstance(b, Sym):
        for x in (a, b):
            if not isinstance(x, Sym) and x != x:
                return x
        return ite(a <= b, a, b)
    return _np.minimum(a, b)


def s_max(a, b):
    if isinstance(a, Sym) or isinstance(b, Sym):
        for x in (a, b):
            if not isinstance(x, Sym) and x != x:
                return x
        return ite(a >= b, a, b)
    return _np.maximum(a, b)


def _fin(x):
    return not (isinstance(x, float) and x != x)


def s_fmin(a, b):
    if not isinstance(a, Sym) and a != a:
        return b
    if not isinstance(b, Sym) and b != b:
        return a
    return s_min(a, b)


def s_fmax(a, b):
    if not isinstance(a, Sym) and a != a:
        return b
    if not isinstance(b, Sym) and b != b:
        return a
    return s_max(a, b)


def s_not(a):
    if isinstance(a, Sym):
        return mkb(z3.Not(tob(a)))
    return not a


def s_and(a, b):
    if isinstance(a, Sym) or isinstance(b, Sym):
        return mkb(z3.And(tob(a), tob(b)))
    return bool(a) and bool(b)


def s_or(a, b):
    if isinstance(a, Sym) or isinstance(b, Sym):
        return mkb(z3.Or(tob(a), tob(b)))
    return bool(a) or bool(b)


def s_xor(a, b):
    if isinstance(a, Sym) or isinstance(b, Sym):
        return mkb(z3.Xor(tob(a), tob(b)))
    return bool(a) != bool(b)


def s_pow(a, b):
    if isinstance(a, Sym) or isinstance(b, Sym):
        if isinstance(b, Sym):
            raise Unsupported("symbolic exponent")
        return a ** b
    return _np.power(_f(a), b) if b == b and float(b) >= 0 else _np.float64(a) ** b


def s_invert(a):
    if isinstance(a, Sym):
        return ~a if isinstance(a, SymBool) else s_not(a)
    if isinstance(a, (bool, _np.bool_)):
        return not a
    return ~a


def s_sign(a):
    return a.sign() if isinstance(a, Sym) else _np.sign(a)


def s_hypot(a, b):
    return s_sqrt(a * a + b * b)


s_sqrt = _call("sqrt")

OPS = {
    "add": (2, lambda a, b: a + b),
    "subtract": (2, lambda a, b: a - b),
    "multiply": (2, lambda a, b: a * b),
    "divide": (2, s_div),
    "true_divide": (2, s_div),
    "floor_divide": (2, lambda a, b: a // b),
    "remainder": (2, lambda a, b: a % b),
    "mod": (2, lambda a, b: a % b),
    "power": (2, s_pow),
    "float_power": (2, s_pow),
    "negative": (1, lambda a: -a),
    "positive": (1, lambda a: a),
    "absolute": (1, abs),
    "fabs": (1, abs),
    "square": (1, lambda a: a * a),
    "sqrt": (1, s_sqrt),
    "exp": (1, _call("exp")),
    "log10": (1, _call("log10")),
    "log": (1, _call("log")),
    "floor": (1, _call("floor")),
    "ceil": (1, _call("ceil")),
    "rint": (1, _call("rint")),
    "trunc": (1, _call("trunc")),
    "sign": (1, s_sign),
    "hypot": (2, s_hypot),
    "less": (2, lambda a, b: a < b),
    "less_equal": (2, lambda a, b: a <= b),
    "greater": (2, lambda a, b: a > b),
    "greater_equal": (2, lambda a, b: a >= b),
    "equal": (2, lambda a, b: a == b),
    "not_equal": (2, lambda a, b: a != b),
    "minimum": (2, s_min),
    "maximum": (2, s_max),
    "fmin": (2, s_fmin),
    "fmax": (2, s_fmax),
    "logical_and": (2, s_and),
    "logical_or": (2, s_or),
    "logical_xor": (2, s_xor),
    "logical_not": (1, s_not),
    "bitwise_and": (2, lambda a, b: a & b),
    "bitwise_or": (2, lambda a, b: a | b),
    "bitwise_xor": (2, lambda a, b: a ^ b),
    "invert": (1, s_invert),
    "isnan": (1, lambda a: False if isinstance(a, Sym) else bool(a != a)),
    "isfinite": (1, lambda a: True if isinstance(a, Sym) else bool(_np.isfinite(a))),
    "isinf": (1, lambda a: False if isinstance(a, Sym) else bool(_np.isinf(a))),
    "reciprocal": (1, lambda a: s_div(1.0, a)),
    "conjugate": (1, lambda a: a),
}

IDENT = {"add": 0.0, "multiply": 1.0, "logical_and": True, "logical_or": False}


def apply_op(name, *args):
    if name not in OPS:
        raise Unsupported("ufunc %s on symbolic values" % name)
    n, f = OPS[name]
    uf = _np.frompyfunc(f, n, 1)
    if not any(isinstance(a, (_np.ndarray, list, tuple)) for a in args):
        return f(*[a.item() if isinstance(a, _np.generic) else a for a in args])
    res = uf(*[obj(a) if isinstance(a, (_np.ndarray, list, tuple)) else obj(a) for a in args])
    return wrap(res)


def _nan_skip(a, repl):
    return _np.frompyfunc(lambda v: repl if (not isinstance(v, Sym) and v != v) else v, 1, 1)(obj(a))


class SymArray(_np.ndarray):
    __array_priority__ = 500.0

    def __array_finalize__(self, o):
        pass

    # -- ufuncs ----------------------------------------------------------
    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        name = ufunc.__name__
        out = kw.pop("out", None)
        kw.pop("casting", None)
        kw.pop("subok", None)
        dt = kw.pop("dtype", None)
        where = kw.pop("where", True)
        if method == "__call__":
            if name == "matmul":
                res = f_dot(*inputs)
            else:
                res = apply_op(name, *inputs)
            if where is not True:
                base = obj(out[0]) if out is not None else obj(inputs[0])
                res = f_where(where, res, base)
        elif method in ("reduce", "accumulate"):
            if name not in OPS:
                raise Unsupported("reduce %s" % name)
            a = obj(inputs[0])
            if where is not True:
                if name == "add":
                    a = obj(f_where(where, wrap(a), 0.0))
                else:
                    raise Unsupported("where reduce")
            uf = _np.frompyfunc(OPS[name][1], 2, 1)
            axis = kw.pop("axis", 0)
            keep = kw.pop("keepdims", False)
            init = kw.pop("initial", None)
            if init is _np._NoValue:
                init = None
            if method == "accumulate":
                res = wrap(uf.accumulate(a, axis=axis))
            else:
                res = _reduce(name, uf, a, axis, keep)
                if init is not None:
                    res = apply_op(name, res, init)
        elif method == "outer":
            a, b = [obj(i) for i in inputs]
            res = apply_op(name, wrap(a.reshape(a.shape + (1,) * b.ndim)), wrap(b))
        elif method == "at":
            a, idx = inputs[0], inputs[1]
            v = inputs[2] if len(inputs) > 2 else None
            idx = _np.atleast_1d(_np.asarray(plain(idx))).astype(int)
            vs = _np.broadcast_to(obj(v), idx.shape)
            pa = plain(a)
            for i, x in zip(idx, vs):
                pa[i] = OPS[name][1](pa[i], x)
            return None
        else:
            raise Unsupported("ufunc method %s" % method)
        if out is not None:
            o = out[0]
            if o.dtype != object:
                if isinstance(res, _np.ndarray) and res.dtype != object:
                    o[...] = res
                    return o
                rr = obj(res)
                if any(isinstance(v, SymNum) for v in rr.flat):
                    # rebind: the caller's name gets the symbolic array
                    return wrap(rr)
                o[...] = rr
                return o
            plain(o)[...] = obj(res)
            return o
        return res

    # -- array functions --------------------------------------------------
    def __array_function__(self, func, types_, args, kwargs):
        name = func.__name__
        if name in FUNCS and getattr(_np, name, None) is not None:
            return FUNCS[name](*args, **kwargs)
        if name in FORBID:
            raise Unsupported("numpy.%s on symbolic values" % name)
        r = super().__array_function__(func, types_, args, kwargs)
        return _wrap_out(r)

    # -- indexing ---------------------------------------------------------
    def __getitem__(self, k):
        r = plain(self)[fix_key(k)]
        return wrap(r) if isinstance(r, _np.ndarray) and r.dtype == object else r

    def __setitem__(self, k, v):
        if isinstance(k, SymBool):
            k = bool(k)
        if isinstance(k, SymArray) and k.size and any(isinstance(x, SymBool) for x in k.flat) and k.shape == self.shape:
            vv = plain(v) if isinstance(v, _np.ndarray) else v
            if not isinstance(vv, _np.ndarray) or vv.ndim == 0:
                # merge without forking
                p = plain(self)
                val = vv.item() if isinstance(vv, _np.ndarray) else vv
                for i in _np.ndindex(*self.shape):
                    p[i] = ite(k[i], val, p[i])
                return
        p = plain(self)
        p[fix_key(k)] = plain(v) if isinstance(v, _np.ndarray) else (obj(v) if isinstance(v, (list, tuple)) else v)

    def __contains__(self, x):
        return bool(f_any(self == x))

    def __bool__(self):
        if self.size == 1:
            return bool(plain(self).flat[0])
        if self.size == 0:
            return False
        raise ValueError("The truth value of an array with more than one element is ambiguous")

    def __float__(self):
        return float(self.item())

    def __int__(self):
        return int(self.item())

    def __index__(self):
        if self.ndim == 0:
            return int(self.item())
        raise TypeError("only integer scalar arrays can be converted to a scalar index")

    def __hash__(self):
        raise TypeError("unhashable type: 'numpy.ndarray'")

    def __iter__(self):
        for i in range(len(self)):
            yield self[i]

    def item(self, *a):
        return plain(self).item(*a)

    def tolist(self):
        return plain(self).tolist()

    def astype(self, dtype, *a, **k):
        return f_astype(self, dtype)

    def __deepcopy__(self, memo):
        return plain(self).copy().view(SymArray)

    def copy(self, *a, **k):
        return plain(self).copy().view(SymArray)

    # -- methods ------------------------------------------------------------
    def sum(self, axis=None, **k):
        return f_sum(self, axis=axis, **k)

    def prod(self, axis=None, **k):
        return _np.multiply.reduce(self, axis=axis)

    def mean(self, axis=None, **k):
        return f_mean(self, axis=axis)

    def var(self, axis=None, ddof=0, **k):
        return f_var(self, axis=axis, ddof=ddof)

    def std(self, axis=None, ddof=0, **k):
        return f_std(self, axis=axis, ddof=ddof)

    def min(self, axis=None, **k):
        return f_min(self, axis=axis)

    def max(self, axis=None, **k):
        return f_max(self, axis=axis)

    def ptp(self, axis=None, **k):
        return f_max(self, axis=axis) - f_min(self, axis=axis)

    def any(self, axis=None, **k):
        return f_any(self, axis=axis)

    def all(self, axis=None, **k):
        return f_all(self, axis=axis)

    def argsort(self, axis=-1, kind=None, order=None):
        return f_argsort(self, axis)

    def sort(self, axis=-1, kind=None, order=None):
        plain(self)[...] = obj(f_sort(self, axis))

    def argmin(self, axis=None, **k):
        return f_argmin(self, axis)

    def argmax(self, axis=None, **k):
        return f_argmax(self, axis)

    def nonzero(self):
        return f_nonzero(self)

    def round(self, decimals=0, out=None):
        return f_round(self, decimals)

    def clip(self, a_min=None, a_max=None, **k):
        return f_clip(self, a_min, a_max)

    def dot(self, b):
        return f_dot(self, b)

    def searchsorted(self, v, side="left", sorter=None):
        return f_searchsorted(self, v, side)

    def cumsum(self, axis=None, **k):
        return f_cumsum(self, axis)


def _sym_array_ufunc(self, ufunc, method, *inputs, **kw):
    return SymArray.__array_ufunc__(self, ufunc, method, *inputs, **kw)


Sym.__array_ufunc__ = _sym_array_ufunc


def _reduce(name, uf, a, axis, keep):
    if axis is None:
        axis = tuple(range(a.ndim))
    if isinstance(axis, int):
        axis = (axis,)
    axis = tuple(x % a.ndim for x in axis) if a.ndim else ()
    r = a
    for ax in sorted(axis, reverse=True):
        if r.shape[ax] == 0:
            if name not in IDENT:
                raise ValueError("zero-size array to reduction operation %s which has no identity" % name)
            shp = r.shape[:ax] + r.shape[ax + 1:]
            n = _np.empty(shp, dtype=object)
            n[...] = IDENT[name]
            r = n if shp else obj(IDENT[name])
            continue
        if name in ("logical_and", "logical_or") and r.shape[ax] == 1:
            pass
        r = uf.reduce(r, axis=ax)
        if not isinstance(r, _np.ndarray):
            r = obj(r)
    if keep:
        r = r.reshape([1 if i in axis else n for i, n in enumerate(a.shape)])
        return wrap(r)
    if r.ndim == 0:
        return r.item()
    return wrap(r)


def _wrap_out(r):
    if isinstance(r, tuple):
        return tuple(_wrap_out(x) for x in r)
    if isinstance(r, list):
        return [_wrap_out(x) for x in r]
    return wrap(r) if isinstance(r, _np.ndarray) else r


def conc_mask(m):
    """symbolic boolean array -> concrete one (forks)"""
    p = plain(m) if isinstance(m, _np.ndarray) else obj(m)
    out = _np.empty(p.shape, dtype=bool)
    for i in _np.ndindex(*p.shape):
        out[i] = bool(p[i])
    return out


def fix_key(k):
    if isinstance(k, tuple):
        return tuple(fix_key(x) for x in k)
    if isinstance(k, SymBool):
        return bool(k)
    if isinstance(k, SymNum):
        return int(k)
    if isinstance(k, list) and _is_sym(k):
        k = symarray(k)
    if isinstance(k, _np.ndarray) and k.dtype == object:
        if k.size == 0:
            return plain(k).astype(int)
        vals = [v for v in plain(k).flat]
        if all(isinstance(v, (SymBool, bool, _np.bool_)) for v in vals):
            return conc_mask(k)
        out = _np.empty(k.shape, dtype=int)
        for i in _np.ndindex(*k.shape):
            v = plain(k)[i]
            if isinstance(v, float) and not v.is_integer():
                raise IndexError("arrays used as indices must be of integer (or boolean) type")
            out[i] = int(v)
        return out
    return plain(k) if isinstance(k, SymArray) else k


# ---------------------------------------------------------------------------
# numpy functions with a symbolic reading
# ---------------------------------------------------------------------------


def f_astype(a, dtype):
    kind = None
    if dtype is float or dtype in ("float", "float64", "f8", "d"):
        kind = "f"
    elif dtype is int or dtype in ("int", "int64", "int32", "i8", "i"):
        kind = "i"
    elif dtype is bool or dtype in ("bool",):
        kind = "b"
    elif dtype is object:
        return a.copy()
    else:
        kind = _np.dtype(_undo_type(dtype)).kind
    p = obj(a)
    if kind == "f":
        conv = to_float if _double(dtype) else to_single
        return wrap(_np.frompyfunc(conv, 1, 1)(p))
    if kind in "iu":
        if all(not isinstance(v, Sym) for v in p.flat):
            return p.astype(int)
        return wrap(_np.frompyfunc(to_intlike, 1, 1)(p))
    if kind == "b":
        return wrap(_np.frompyfunc(lambda v: mkb(tob(v)) if isinstance(v, Sym) else bool(v), 1, 1)(p))
    if kind in "US":
        return a.copy()
    raise Unsupported("astype %s" % (dtype,))


def _double(dtype):
    return dtype is float or _np.dtype(_undo_type(dtype)).itemsize >= 8


def to_single(v):
    """in less than double precision: numbers of the form k + 1/10 are rounded
    (fewer than are in fact; the replay decides)"""
    v = to_float(v)
    if not isinstance(v, Sym):
        return float(_np.float32(v))
    if v.e.decl().kind() == E.z3.Z3_OP_TO_REAL:
        return v
    return E.CTX.single(v)


def to_float(v):
    if isinstance(v, SymBool):
        return v.num()
    if isinstance(v, E.SymText):
        return v.num
    if isinstance(v, Sym):
        return v
    return float(v)


def to_intlike(v):
    if isinstance(v, SymBool):
        return v.num()
    if isinstance(v, SymNum):
        return v.__trunc__()
    return int(v)


def f_array(x, dtype=None, *a, copy=True, ndmin=0, **k):
    if not copy and isinstance(x, SymArray) and x.ndim >= ndmin and (dtype is None or _has_type(x, dtype)):
        return x
    if isinstance(x, (Sym, list, tuple)) or not isinstance(x, _np.ndarray):
        r = obj(x)
    else:
        r = obj(x)
        if copy:
            r = r.copy()
    while r.ndim < ndmin:
        r = r.reshape((1,) + r.shape)
    if r.ndim == 0 and isinstance(r.item(), str):
        return _np.array(x)
    r = r.view(SymArray)
    if dtype is not None and dtype is not object:
        r = f_astype(r, dtype)
    return r


def f_asarray(x, dtype=None, *a, **k):
    if isinstance(x, SymArray) and (dtype is None or _has_type(x, dtype)):
        return x
    return f_array(x, dtype)


def _has_type(x, dtype):
    """an array that is of that type already (and not copied)"""
    if dtype is float or dtype in ("float", "float64", "f8", "d") or dtype is _np.float64:
        return x.dtype == object and all(isinstance(v, (float, SymNum)) for v in x.flat)
    return False


def f_zeros(shape, dtype=float, *a, **k):
    return _new(shape, 0, dtype)


def f_ones(shape, dtype=float, *a, **k):
    return _new(shape, 1, dtype)


def f_full(shape, fill, dtype=None, *a, **k):
    if dtype is None:
        dtype = bool if isinstance(fill, bool) else (int if isinstance(fill, int) else float)
    return _new(shape, fill, dtype)


def _new(shape, v, dtype):
    shape = fix_shape(shape)
    kd = _np.dtype(_undo_type(dtype)).kind if dtype is not None else "f"
    if kd == "b":
        r = _np.empty(shape, dtype=object)
        r[...] = bool(v)
        return r.view(SymArray)
    if kd in "iu":
        return _np.full(shape, v, dtype=dtype)
    if kd in "US":
        return _np.full(shape, v, dtype=dtype)
    r = _np.empty(shape, dtype=object)
    r[...] = v if (kd == "O" or isinstance(v, Sym)) else float(v)
    return r.view(SymArray)


def fix_shape(s):
    if isinstance(s, Sym):
        return int(s)
    if isinstance(s, (list, tuple)):
        return tuple(int(x) for x in s)
    return s


def f_zeros_like(a, dtype=None, **k):
    return _like(a, 0, dtype)


def f_ones_like(a, dtype=None, **k):
    return _like(a, 1, dtype)


def f_full_like(a, v, dtype=None, **k):
    return _like(a, v, dtype)


def _like(a, v, dtype):
    if isinstance(a, _np.ndarray) and not isinstance(a, SymArray) and a.dtype.kind in "biuSU" and dtype is None:
        return _np.full_like(a, v)
    shp = a.shape if isinstance(a, _np.ndarray) else obj(a).shape
    if dtype is None and isinstance(a, SymArray) and a.size and all(
        isinstance(x, (SymBool, bool, _np.bool_)) for x in plain(a).flat
    ):
        dtype = bool
    return _new(shp, v, dtype or float)


def f_sum(a, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=None):
    a = f_asarray(a)
    p = obj(a)
    if where is not None:
        p = obj(f_where(where, a, 0.0))
    return _reduce("add", _np.frompyfunc(lambda x, y: x + y, 2, 1), _numify(p), axis, keepdims)


def _numify(p):
    return _np.frompyfunc(
        lambda v: v.num() if isinstance(v, SymBool) else (int(v) if isinstance(v, (bool, _np.bool_)) else v), 1, 1
    )(p) if p.size else p


def _count(a, axis):
    a = obj(a)
    if axis is None:
        return a.size
    return a.shape[axis]


def f_mean(a, axis=None, **k):
    n = _count(a, axis)
    s = f_sum(a, axis=axis)
    if n == 0:
        return float("nan")
    return apply_op("divide", s, float(n))


def f_var(a, axis=None, ddof=0, **k):
    if axis not in (None, 0) or (axis == 0 and obj(a).ndim > 1):
        raise Unsupported("var axis")
    m = f_mean(a)
    d = apply_op("subtract", f_asarray(a), m)
    n = obj(a).size - ddof
    return apply_op("divide", f_sum(apply_op("multiply", d, d)), float(n))


def f_std(a, axis=None, ddof=0, **k):
    return apply_op("sqrt", f_var(a, axis, ddof))


def f_min(a, axis=None, *x, **k):
    return _reduce("minimum", _np.frompyfunc(s_min, 2, 1), obj(a), axis, k.get("keepdims", False))


def f_max(a, axis=None, *x, **k):
    return _reduce("maximum", _np.frompyfunc(s_max, 2, 1), obj(a), axis, k.get("keepdims", False))


def f_nanmin(a, axis=None, **k):
    return _reduce("fmin", _np.frompyfunc(s_fmin, 2, 1), obj(a), axis, False)


def f_nanmax(a, axis=None, **k):
    return _reduce("fmax", _np.frompyfunc(s_fmax, 2, 1), obj(a), axis, False)


def f_nansum(a, axis=None, **k):
    return f_sum(_nan_skip(a, 0.0), axis=axis)


def f_nanmean(a, axis=None, **k):
    p = obj(a)
    n = sum(1 for v in p.flat if isinstance(v, Sym) or v == v)
    return f_nansum(a) / float(n)


def f_any(a, axis=None, *x, **k):
    p = obj(a)
    if axis is None:
        xs = [v for v in p.flat]
        if all(not isinstance(v, Sym) for v in xs):
            return any(bool(v) for v in xs)
        return mkb(z3.Or(*[tob(v) for v in xs]))
    return _reduce("logical_or", _np.frompyfunc(s_or, 2, 1), p, axis, False)


def f_all(a, axis=None, *x, **k):
    p = obj(a)
    if axis is None:
        xs = [v for v in p.flat]
        if all(not isinstance(v, Sym) for v in xs):
            return all(bool(v) for v in xs)
        return mkb(z3.And(*[tob(v) for v in xs]))
    return _reduce("logical_and", _np.frompyfunc(s_and, 2, 1), p, axis, False)


def _lt(a, b):
    # numpy sorts nan last
    if not isinstance(b, Sym) and isinstance(b, float) and b != b:
        return not (not isinstance(a, Sym) and a != a)
    if not isinstance(a, Sym) and isinstance(a, float) and a != a:
        return False
    return bool(a < b)


def argsort_list(vals):
    """stable insertion sort (what numpy does for n <= 16); forks"""
    idx = []
    for i in range(len(vals)):
        j = len(idx)
        while j > 0 and _lt(vals[i], vals[idx[j - 1]]):
            j -= 1
        idx.insert(j, i)
    return idx


def f_argsort(a, axis=-1, kind=None, order=None):
    p = obj(a)
    if p.ndim == 0:
        return _np.array(0)
    if axis is None:
        p = p.ravel()
        axis = -1
    axis = axis % p.ndim
    out = _np.empty(p.shape, dtype=int)
    for i in _np.ndindex(*(p.shape[:axis] + p.shape[axis + 1:])):
        sl = i[:axis] + (slice(None),) + i[axis:]
        out[sl] = argsort_list(list(p[sl]))
    return out


def f_sort(a, axis=-1, kind=None, order=None):
    p = obj(a)
    if axis is None:
        p = p.ravel()
        axis = -1
    axis = axis % p.ndim
    out = _np.empty(p.shape, dtype=object)
    for i in _np.ndindex(*(p.shape[:axis] + p.shape[axis + 1:])):
        sl = i[:axis] + (slice(None),) + i[axis:]
        v = p[sl]
        out[sl] = v[argsort_list(list(v))]
    return wrap(out)


def f_lexsort(keys, axis=-1):
    keys = [obj(k) for k in keys]
    n = len(keys[0])
    idx = list(range(n))
    for k in keys:
        o = argsort_list([k[i] for i in idx])
        idx = [idx[j] for j in o]
    return _np.array(idx, dtype=int)


def _arg(a, axis, better):
    p = obj(a)
    if axis is not None and p.ndim > 1:
        ax = axis % p.ndim
        rest = p.shape[:ax] + p.shape[ax + 1:]
        out = _np.empty(rest, dtype=int)
        for i in _np.ndindex(*rest):
            sl = i[:ax] + (slice(None),) + i[ax:]
            out[i] = _arg(p[sl], None, better)
        return out
    vals = [v for v in p.flat]
    if not vals:
        raise ValueError("attempt to get argmin of an empty sequence")
    best = 0
    for i, v in enumerate(vals):
        if not isinstance(v, Sym) and v != v:
            return i
        if i and bool(better(v, vals[best])):
            best = i
    return best


def f_argmin(a, axis=None, *x, **k):
    return _arg(a, axis, lambda u, v: u < v)


def f_argmax(a, axis=None, *x, **k):
    return _arg(a, axis, lambda u, v: u > v)


def f_unique(a, return_index=False, return_inverse=False, return_counts=False, axis=None, **k):
    vals = [v for v in obj(a).flat]
    idx = argsort_list(vals)
    groups = []
    for i in idx:
        if groups and bool(vals[groups[-1][0]] == vals[i]):
            groups[-1].append(i)
        else:
            groups.append([i])
    u = wrap(_obj_from_list([vals[g[0]] for g in groups]))
    if not isinstance(u, SymArray):
        u = symarray(u)
    out = [u]
    if return_index:
        out.append(_np.array([min(g) for g in groups], dtype=int))
    if return_inverse:
        inv = _np.zeros(len(vals), dtype=int)
        for n, g in enumerate(groups):
            for i in g:
                inv[i] = n
        out.append(inv)
    if return_counts:
        out.append(_np.array([len(g) for g in groups], dtype=int))
    return out[0] if len(out) == 1 else tuple(out)


def f_bincount(x, weights=None, minlength=0):
    idx = [int(v) for v in obj(x).flat]
    n = max([v + 1 for v in idx] + [int(minlength)])
    if any(v < 0 for v in idx):
        raise ValueError("'list' argument must have no negative elements")
    out = [0.0 if weights is not None else 0] * n
    w = [1] * len(idx) if weights is None else list(obj(weights).flat)
    for i, v in zip(idx, w):
        out[i] = out[i] + v
    return wrap(_obj_from_list(out))


def f_select(condlist, choicelist, default=0):
    out = default
    for c, v in reversed(list(zip(condlist, choicelist))):
        out = f_where(c, v, out)
    return out


def f_copyto(dst, src, casting=None, where=True):
    dst[...] = f_where(where, src, dst) if _is_sym(where) or getattr(where, "ndim", 0) else src if where else dst


def f_where(c, *ab):
    if not ab:
        return f_nonzero(c)
    a, b = ab
    r = _np.frompyfunc(ite, 3, 1)(obj(c), obj(a), obj(b))
    return wrap(r) if isinstance(r, _np.ndarray) else r


def _tomask(c):
    p = obj(c)
    out = _np.empty(p.shape, dtype=bool)
    for i in _np.ndindex(*p.shape):
        v = p[i]
        out[i] = bool(v) if not isinstance(v, SymNum) else bool(v != 0)
    return out


def f_nonzero(c):
    return _np.nonzero(_tomask(c))


def f_argwhere(c):
    return _np.argwhere(_tomask(c))


def f_flatnonzero(c):
    return _np.flatnonzero(_tomask(c))


def f_count_nonzero(c, axis=None, **k):
    return f_sum(_np.frompyfunc(lambda v: mkb(tob(v)) if isinstance(v, Sym) else bool(v), 1, 1)(obj(c)), axis=axis)


def f_isin(a, b, assume_unique=False, invert=False):
    bs = [v for v in obj(b).flat]

    def one(x):
        hit = [x == y for y in bs]
        if any(h is True or (isinstance(h, _np.bool_) and h) for h in hit):
            r = True
        else:
            hs = [tob(h) for h in hit if isinstance(h, Sym)]
            r = mkb(z3.Or(*hs)) if hs else False
        return s_not(r) if invert else r

    p = obj(a)
    r = _np.empty(p.shape, dtype=object)
    for i in _np.ndindex(*p.shape):
        r[i] = one(p[i])
    return wrap(r) if r.ndim else r.item()


def f_in1d(a, b, assume_unique=False, invert=False):
    return f_isin(obj(a).ravel(), b, invert=invert)


def f_isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    def one(x, y):
        xs, ys = isinstance(x, Sym), isinstance(y, Sym)
        if (not xs and not _np.isfinite(x)) or (not ys and not _np.isfinite(y)):
            if xs or ys:
                return False
            return bool(_np.isclose(x, y, rtol, atol, equal_nan))
        return abs(x - y) <= atol + rtol * abs(y)

    r = _np.frompyfunc(one, 2, 1)(obj(a), obj(b))
    return wrap(r) if isinstance(r, _np.ndarray) else r


def f_allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return f_all(f_isclose(a, b, rtol, atol, equal_nan))


def f_array_equal(a, b, **k):
    a, b = obj(a), obj(b)
    if a.shape != b.shape:
        return False
    return f_all(apply_op("equal", wrap(a), wrap(b)))


def f_round(a, decimals=0, out=None):
    r = _np.frompyfunc(lambda v: round_one(v, decimals), 1, 1)(obj(a))
    return wrap(r) if isinstance(r, _np.ndarray) else r


def round_one(v, d):
    return v.__round__(d) if isinstance(v, Sym) else _np.round(v, d)


def f_clip(a, a_min=None, a_max=None, out=None, **k):
    r = f_asarray(a)
    if a_min is not None:
        r = apply_op("maximum", r, a_min)
    if a_max is not None:
        r = apply_op("minimum", r, a_max)
    return r


def f_searchsorted(a, v, side="left", sorter=None):
    av = list(obj(a))
    if sorter is not None:
        av = [av[i] for i in sorter]

    def one(x):
        n = 0
        for y in av:
            c = (y < x) if side == "left" else (y <= x)
            if bool(c):
                n += 1
            else:
                break
        return n

    p = obj(v)
    if p.ndim == 0:
        return one(p.item())
    return _np.array([one(x) for x in p.flat], dtype=int).reshape(p.shape)


def f_digitize(x, bins, right=False):
    b = list(obj(bins))
    if len(b) > 1 and bool(b[0] > b[-1]):
        raise Unsupported("decreasing bins")
    return f_searchsorted(bins, x, side="left" if right else "right")


def f_cumsum(a, axis=None, **k):
    p = obj(a)
    if axis is None:
        p = p.ravel()
        axis = 0
    return wrap(_np.frompyfunc(lambda x, y: x + y, 2, 1).accumulate(p, axis=axis))


def f_cumprod(a, axis=None, **k):
    p = obj(a)
    if axis is None:
        p = p.ravel()
        axis = 0
    return wrap(_np.frompyfunc(lambda x, y: x * y, 2, 1).accumulate(p, axis=axis))


def f_dot(a, b, *x, **k):
    a, b = obj(a), obj(b)
    if a.ndim == 0 or b.ndim == 0:
        return apply_op("multiply", wrap(a), wrap(b))
    r = _np.dot(a, b)
    return wrap(r) if isinstance(r, _np.ndarray) else r


def f_ptp(a, axis=None, **k):
    return f_max(a, axis) - f_min(a, axis)


def f_linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    num = int(num)
    d = (num - 1) if endpoint else num
    if num == 0:
        return symarray([])
    step = (stop - start) / d if d > 0 else float("nan")
    vals = [start + step * i if i else start + 0.0 for i in range(num)]
    if endpoint and num > 1:
        vals[-1] = stop + 0.0
    r = symarray(vals)
    if dtype is not None:
        r = f_astype(r, dtype)
    return (r, step) if retstep else r


def f_arange(start, stop=None, step=1, dtype=None, **k):
    if stop is None:
        start, stop = 0, start
    n = 0
    vals = []
    # length = ceil((stop-start)/step): forks on the length
    while bool((start + n * step < stop) if step > 0 else (start + n * step > stop)):
        vals.append(start + n * step)
        n += 1
        if n > E.ctx().opts.get("max_arange", 200):
            raise Unsupported("arange too long")
    if not any(isinstance(v, Sym) for v in vals):
        # same dtype as numpy gives
        isint = all(isinstance(x, (int, _np.integer)) and not isinstance(x, Sym) for x in (start, step)) and not isinstance(stop, float)
        return _np.array(vals, dtype=dtype or (int if isint else float))
    return symarray(vals)


def f_nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    r = _np.frompyfunc(lambda v: v if isinstance(v, Sym) else float(_np.nan_to_num(v, nan=nan, posinf=posinf, neginf=neginf)), 1, 1)(obj(x))
    return wrap(r) if isinstance(r, _np.ndarray) else r


def f_median(a, axis=None, **k):
    v = list(obj(f_sort(obj(a).ravel())))
    n = len(v)
    return v[n // 2] if n % 2 else (v[n // 2 - 1] + v[n // 2]) / 2.0


def f_setdiff1d(a, b, assume_unique=False):
    u = f_unique(a)
    return u[conc_mask(symarray(f_isin(u, b, invert=True)))] if len(u) else u


def f_intersect1d(a, b, assume_unique=False, return_indices=False):
    u = f_unique(a)
    return u[conc_mask(symarray(f_isin(u, b)))] if len(u) else u


def f_union1d(a, b):
    return f_unique(_np.concatenate([obj(a).ravel(), obj(b).ravel()]))


def f_diff(a, n=1, axis=-1, **k):
    p = obj(a)
    for _ in range(n):
        sl1 = [slice(None)] * p.ndim
        sl2 = [slice(None)] * p.ndim
        sl1[axis] = slice(1, None)
        sl2[axis] = slice(None, -1)
        p = _np.frompyfunc(lambda x, y: x - y, 2, 1)(p[tuple(sl1)], p[tuple(sl2)])
    return wrap(p)


def f_insert(arr, obj_, values, axis=None):
    a = obj(arr)
    i = fix_key(obj_)
    if isinstance(i, (list, tuple)):
        i = _np.asarray(i)
    if isinstance(i, float):
        # (a count over nothing)
        i = int(i)
    values = obj(values) if isinstance(values, (_np.ndarray, list, tuple, Sym)) else values
    if a.size and all(isinstance(v, (int, _np.integer)) and not isinstance(v, bool) for v in a.flat):
        # an array of integers stays one
        values = f_astype(wrap(obj(values)), int)
    r = _np.insert(a, i, plain(values) if isinstance(values, _np.ndarray) else values, axis=axis)
    return wrap(r)


def f_delete(arr, obj_, axis=None):
    return wrap(_np.delete(obj(arr), fix_key(obj_), axis=axis))


def f_average(a, axis=None, weights=None, **k):
    if weights is None:
        return f_mean(a, axis)
    return f_sum(apply_op("multiply", f_asarray(a), f_asarray(weights))) / f_sum(weights)


def f_interp(x, xp, fp, *a, **k):
    raise Unsupported("np.interp on symbolic values")


def f_histogram2d(x, y, bins=10, range=None, density=None, weights=None):
    """numpy's histogram over the data range, equal-width bins"""
    xs, ys = list(obj(x).flat), list(obj(y).flat)
    nx, ny = (bins if isinstance(bins, (tuple, list)) else (bins, bins))

    def edges(v, n):
        if isinstance(n, _np.ndarray) or isinstance(n, list):
            return obj(n)
        n = int(n)
        lo, hi = (f_min(v), f_max(v)) if len(v) else (0.0, 1.0)
        if bool(lo == hi):
            lo, hi = lo - 0.5, hi + 0.5
        return obj(f_linspace(lo, hi, n + 1))

    if range is not None:
        raise Unsupported("histogram2d range")
    ex, ey = edges(symarray(xs), nx), edges(symarray(ys), ny)

    def idx(v, e):
        n = len(e) - 1
        for i in _range(n - 1):
            if bool(v < e[i + 1]):
                return i
        return n - 1

    h = _np.zeros((len(ex) - 1, len(ey) - 1))
    for a, b in zip(xs, ys):
        h[idx(a, ex), idx(b, ey)] += 1
    return h, wrap(ex), wrap(ey)


_range = range


def f_histogram(a, bins=10, range=None, **k):
    v = list(obj(a).flat)
    if isinstance(bins, (list, tuple, _np.ndarray)):
        e = obj(bins)
    else:
        lo, hi = f_min(symarray(v)), f_max(symarray(v))
        if bool(lo == hi):
            lo, hi = lo - 0.5, hi + 0.5
        e = obj(f_linspace(lo, hi, int(bins) + 1))
    n = len(e) - 1
    h = _np.zeros(n, dtype=int)
    for x in v:
        for i in _range(n):
            if i == n - 1 or bool(x < e[i + 1]):
                h[i] += 1
                break
    return h, wrap(e)


def f_broadcast_to(a, shape, **k):
    return wrap(_np.broadcast_to(obj(a), fix_shape(shape)).copy())


FUNCS = {k[2:]: v for k, v in list(globals().items()) if k.startswith("f_")}
FUNCS["amin"] = f_min
FUNCS["amax"] = f_max
FUNCS["around"] = f_round
FUNCS["round_"] = f_round
FUNCS["asanyarray"] = f_asarray
FUNCS["ascontiguousarray"] = f_asarray
FUNCS["asfarray"] = f_asarray
FUNCS["matmul"] = f_dot
FUNCS["inner"] = f_dot
FUNCS["nanargmin"] = f_argmin
FUNCS["nanargmax"] = f_argmax
FUNCS["abs"] = lambda a: apply_op("absolute", a)
FUNCS["copy"] = lambda a, **k: f_array(a)
FUNCS.pop("astype")
FORBID = {"save", "savez", "percentile", "quantile", "fft", "convolve", "interp", "savetxt", "correlate"}


# ---------------------------------------------------------------------------
# the numpy module stand-in
# ---------------------------------------------------------------------------

# functions that are symbolic-capable even when all arguments are concrete
ALWAYS = {"zeros", "ones", "empty", "full", "zeros_like", "ones_like", "full_like", "empty_like"}
FUNCS["empty"] = f_zeros
FUNCS["empty_like"] = f_zeros_like


class _TypeProxy:
    """np.float64 & co. used as a converter or as a dtype"""

    def __init__(self, t, conv):
        self._t = t
        self._conv = conv
        self.__name__ = t.__name__

    def __call__(self, x=0, *a, **k):
        if _is_sym(x):
            if isinstance(x, Sym):
                return self._conv(x)
            return f_astype(f_asarray(x), self._t)
        return self._t(x, *a, **k)

    def __eq__(self, o):
        return o is self or o is self._t or _undo_type(o) is self._t

    def __hash__(self):
        return hash(self._t)

    @property
    def dtype(self):
        return _np.dtype(self._t)


def _undo_type(t):
    if isinstance(t, _TypeProxy):
        return t._t
    return t


def _has_sym(args, kwargs):
    return any(_is_sym(a) for a in args) or any(_is_sym(a) for a in kwargs.values())


def _conv_arg(a):
    if isinstance(a, (list, tuple)) and _is_sym(a):
        if isinstance(a, tuple) and any(isinstance(x, _np.ndarray) for x in a) or (
            isinstance(a, list) and any(isinstance(x, _np.ndarray) and x.ndim > 0 for x in a)
        ):
            # sequence of arrays (concatenate, stack ...)
            return type(a)(symarray(x) if _is_sym(x) else x for x in a)
        return symarray(a)
    if isinstance(a, _np.ndarray) and a.dtype == object and not isinstance(a, SymArray):
        return a.view(SymArray)
    return a


SEQ_FUNCS = {"concatenate", "vstack", "hstack", "stack", "column_stack", "dstack", "block", "row_stack"}


def wrap_func(name, real):
    def call(*args, **kwargs):
        args = tuple(_undo_type(a) for a in args)
        kwargs = {k: _undo_type(v) for k, v in kwargs.items()}
        if not E.CTX or not E.CTX.symbolic:
            return real(*args, **kwargs)
        if name in ALWAYS:
            return FUNCS[name](*args, **kwargs)
        if not _has_sym(args, kwargs):
            return conc(real(*args, **kwargs))
        if isinstance(real, _np.ufunc):
            if any(isinstance(a, SymArray) for a in args):
                return real(*args, **kwargs)
            out = kwargs.pop("out", None)
            kwargs.pop("dtype", None)
            if kwargs:
                raise Unsupported("ufunc kwargs %s" % list(kwargs))
            if out is not None:
                return SymArray.__array_ufunc__(None, real, "__call__", *[_conv_arg(a) for a in args], out=(out,))
            if name == "matmul":
                return f_dot(*args)
            return apply_op(real.__name__, *args)
        if name in FUNCS:
            return FUNCS[name](*args, **kwargs)
        if name in FORBID:
            raise Unsupported("numpy.%s on symbolic values" % name)
        if name in SEQ_FUNCS:
            seq = [f_asarray(x) if _is_sym(x) else _np.asarray(x) for x in args[0]]
            return _wrap_out(real(seq, *args[1:], **kwargs))
        a2 = [_conv_arg(a) for a in args]
        k2 = {k: _conv_arg(v) for k, v in kwargs.items()}
        return _wrap_out(real(*a2, **k2))

    call.__name__ = name
    call.__wrapped_real__ = real
    if isinstance(real, _np.ufunc):
        call = _UfuncProxy(name, real, call)
    return call


class _UfuncProxy:
    def __init__(self, name, real, call):
        self._real = real
        self._call = call
        self.__name__ = name
        self.__wrapped_real__ = real

    def __call__(self, *a, **k):
        return self._call(*a, **k)

    def __getattr__(self, m):
        meth = getattr(self._real, m)
        if m == "at":
            return self._at
        if callable(meth):
            def f(*args, **kw):
                return meth(*[_conv_arg(a) for a in args], **kw)
            return f
        return meth


    def _at(self, a, indices, *b):
        if not _has_sym((a, indices, b), {}):
            return self._real.at(a, indices, *b)
        n, f = OPS[self._real.__name__]
        where = [int(i) for i in _np.asarray(obj(indices)).ravel()] if not isinstance(indices, tuple) else None
        if where is None or getattr(a, "ndim", 1) != 1:
            raise Unsupported("ufunc.at on a table")
        if _np.asarray(obj(indices)).dtype == bool:
            raise Unsupported("ufunc.at with a mask")
        for k, i in enumerate(where):
            if n == 1:
                a[i] = f(a[i])
            else:
                v = obj(b[0])
                a[i] = f(a[i], v.ravel()[k] if getattr(v, "ndim", 0) else (v.item() if isinstance(v, _np.ndarray) else v))


def _texts(v):
    if isinstance(v, _np.ndarray) and v.dtype == object and all(isinstance(x, str) for x in v.flat):
        return _np.array([str(x) for x in v.flat], dtype=str).reshape(v.shape)
    return v


class _CharModule:
    def __getattr__(self, n):
        r = getattr(_np.char, n)
        return lambda *a, **k: r(*[_texts(x) for x in a], **{q: _texts(x) for q, x in k.items()})


class NPModule:
    """proxy of numpy or one of its submodules"""

    def __init__(self, mod, overrides=None, subs=None):
        self.__dict__["_mod"] = mod
        self.__dict__["_over"] = overrides or {}
        self.__dict__["_subs"] = subs or {}
        self.__dict__["_cache"] = {}

    def __getattr__(self, n):
        if n in self._over:
            return self._over[n]
        if n in self._subs:
            return self._subs[n]
        if n in self._cache:
            return self._cache[n]
        r = getattr(self._mod, n)
        if r is _np.char:
            r = _CharModule()
        elif isinstance(r, types.ModuleType):
            r = NPModule(r)
        elif r in (_np.float64, _np.double):
            r = _TypeProxy(r, to_float)
        elif r in (_np.float32, _np.float16):
            r = _TypeProxy(r, to_single)
        elif isinstance(r, _np.ufunc) or (callable(r) and not isinstance(r, type)):
            r = wrap_func(n, r)
        self._cache[n] = r
        return r

    def __setattr__(self, n, v):
        self._over[n] = v

    def __dir__(self):
        return dir(self._mod)


class _RClass:
    def _cat(self, key, axis):
        if not isinstance(key, tuple):
            key = (key,)
        parts = []
        for k in key:
            if isinstance(k, slice):
                parts.append(f_arange(k.start or 0, k.stop, k.step or 1))
            elif isinstance(k, (_np.ndarray, list, tuple)):
                parts.append(f_asarray(k))
            else:
                parts.append(symarray([k]))
        if axis == 1:
            parts = [p.reshape(-1, 1) if p.ndim == 1 else p for p in parts]
            return _wrap_out(_np.concatenate([obj(p) for p in parts], axis=1))
        return _wrap_out(_np.concatenate([obj(p) for p in parts]))


class _R(_RClass):
    def __getitem__(self, key):
        if not _is_sym(list(key) if isinstance(key, tuple) else [key]):
            return _np.r_[key]
        return self._cat(key, 0)


class _C(_RClass):
    def __getitem__(self, key):
        if not _is_sym(list(key) if isinstance(key, tuple) else [key]):
            return _np.c_[key]
        return self._cat(key, 1)


# -- numpy.random: nondeterministic -----------------------------------------


class RandomStub:
    """Every draw is an arbitrary value the documented distribution can give.

    After seed(s) the draws are a function of s and of the position in the
    stream only, so two runs with the same seed see the same values."""

    def __init__(self, stream=None):
        self.n = 0
        self.log = []
        self.stream = stream
        self.prefix = "rnd"

    def seed(self, s=None):
        self.log.append(("seed", s))
        if s is not None:
            self.prefix = "seed%s" % (s,)
            self.n = 0

    def reset(self, tag):
        """a fresh unseeded generator (start of another process)"""
        self.prefix = tag
        self.n = 0

    def _name(self, t):
        self.n += 1
        return "%s_%s_%d" % (self.prefix, t, self.n)

    rotate = False  # take turns instead of any draw
    starts = 0

    picks = 0
    max_picks = None  # runs with more draws are outside the bounds

    def _pick(self, options):
        self.picks += 1
        if self.max_picks is not None and self.picks > self.max_picks:
            E.ctx().assume(False)
        if self.rotate:
            self.n += 1
            at = self.n - 1
            if self.starts:
                # each stream starts anywhere
                at += E.ctx().choice("%s_start" % self.prefix, list(range(self.starts)), memo=True)
            return options[at % len(options)]
        return E.ctx().choice(self._name("choice%d" % len(options)), options, memo=True)

    on_choice = None  # told of every draw

    def choice(self, a, size=None, replace=True, p=None):
        if self.on_choice is not None:
            self.on_choice(a, size, replace, p)
        if isinstance(a, (int, _np.integer)):
            a = list(range(a))
        vals = list(a)
        if not vals:
            raise ValueError("'a' cannot be empty unless no samples are taken")
        if p is not None:
            vals_i = [i for i in range(len(vals)) if not (not isinstance(p[i], Sym) and p[i] == 0)]
        else:
            vals_i = list(range(len(vals)))
        if size is None:
            i = self._pick(vals_i)
            self.log.append(("choice", i))
            return vals[i]
        n = int(size)
        if not replace and n > len(vals_i):
            raise ValueError("Cannot take a larger sample than population when 'replace=False'")
        pool = list(vals_i)
        out = []
        for _ in range(n):
            i = self._pick(pool)
            out.append(i)
            if not replace:
                pool.remove(i)
        self.log.append(("choice", out))
        r = [vals[i] for i in out]
        return symarray(r) if _is_sym(r) else _np.array(r)

    def random(self, size=None):
        c = E.ctx()
        if size is None:
            return c.real(self._name("u"), 0, 1, memo=True)
        n = int(size)
        vals = [c.real(self._name("u"), 0, 1, memo=True) for _ in range(n)]
        return symarray(vals) if c.symbolic else _np.array(vals, dtype=float)

    def random_sample(self, size=None):
        return self.random(size)

    def rand(self, *shape):
        return self.random(shape[0] if shape else None)

    def uniform(self, low=0.0, high=1.0, size=None):
        return low + (high - low) * self.random(size)

    def randint(self, low, high=None, size=None, dtype=int):
        if high is None:
            low, high = 0, low
        return self.choice(list(range(low, high)), size=size)

    integers = randint

    def permutation(self, x):
        n = x if isinstance(x, int) else len(x)
        return self.choice(x if not isinstance(x, int) else list(range(n)), size=n, replace=False)

    def shuffle(self, x):
        x[:] = list(self.permutation(list(x)))

    def default_rng(self, seed=None):
        r = RandomStub()
        if isinstance(seed, RandomStub):
            return seed
        self.n += 1
        r.prefix = "rng%s" % seed if seed is not None else "%s_rng%d" % (self.prefix, self.n)
        return r

    RandomState = default_rng

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported("numpy.random.%s" % n)


def make_np(random=None):
    """a fresh numpy stand-in"""
    poly = NPModule(_np.polynomial)
    subs = {"polynomial": poly}
    if random is not None:
        subs["random"] = random
    np_ = NPModule(_np, subs=subs)
    np_._over["r_"] = _R()
    np_._over["c_"] = _C()
    return np_
