import numpy as np

from vlib import cal as K
from vlib.again import twice

PROPERTY = "C24"
BOUNDS = (
    "2-4 data points (thorough 5), degree 1-3 (thorough 4), pixels and wavelengths any stretch and (wavelengths) any shift of listed positions, two points "
    "with any wavelengths; every result of the optimiser; every starting guess; lists, tuples and arrays, integers and floats"
)
OUTSIDE = "data without spread (all pixels or all wavelengths alike); more points; whether scipy's least_squares reaches the optimum (C34)"
STUBS = "scipy's least_squares returns an arbitrary vector, having evaluated the residual function where the harness asks"


def var(xs):
    m = sum(xs, 0.0) / len(xs)
    return sum(((x - m) * (x - m) for x in xs), 0.0) / len(xs)


def fit(h, base, deg, guess=None, form="array", y0=None):
    """one robust fit under observation; base: pixels before stretching"""
    import rascal.models as m
    import scipy.optimize as so

    n = len(base)
    if form.startswith("int"):
        x = list(base)
    else:
        s = h.real("stretch", 0.5, 20)
        x = [s * b for b in base]
    if y0 is not None:
        t, o = h.real("scale", 0.5, 100), h.real("offset", 0, 5000)
        y = [o + t * b for b in y0]
    else:
        y = [h.real("y%d" % i, -100, 100) for i in range(n)]
        h.assume(y[-1] - y[0] >= 1)
    ans = [h.real("a%d" % i, -5, 5) for i in range(deg + 1)]
    probe = [h.real("b%d" % i, -5, 5) for i in range(deg + 1)]
    calls = []

    def least_squares(fun, x0, *a, **k):
        args = k.get("args", ())
        kwargs = k.get("kwargs", {})

        def res(v):
            return h.list(fun(h.arr(v), *args, **kwargs))

        rec = dict(x0=h.list(x0), loss=k.get("loss", "linear"), zero=res([0.0] * (deg + 1)), ans=res(ans), probe=res(probe), start=None)
        rec["start"] = res(rec["x0"])
        rec["unit"] = [res([1.0 if i == j else 0.0 for j in range(deg + 1)]) for i in range(deg + 1)]
        calls.append(rec)

        class Res:
            """whatever the optimiser says of itself, its answer counts"""

            x = h.arr(ans)
            cost, optimality, message, nfev, njev = 0.0, 0.0, "stub", 1, 1
            fun = h.arr(rec["ans"])

            @property
            def success(self):
                return h.choice("success", [True, False], memo=True)

            @property
            def status(self):
                return 1 if self.success else 0

        return Res()

    h.stub(so.least_squares, least_squares)
    # the curve the guess describes
    g = None
    if guess is not None:
        g = [h.real("g%d" % i, -50, 50) for i in range(deg + 1)]
    to = {"array": h.arr, "list": list, "intlist": list, "tuple": tuple, "intarray": lambda v: np.array(v) if all(isinstance(t, int) for t in v) else h.arr(v)}[form]
    X, Y = to(x), to(y)
    G = None if g is None else (h.arr(g) if guess == "array" else list(g))
    p = h.func("rascal.models", "robust_polyfit")(X, Y, deg, **({} if G is None else {"x0": G}))
    h.check(len(calls) == 1, "one optimisation")
    if len(calls) != 1:
        h.reach()
        return
    c = calls[0]
    h.check(c["loss"] == "huber", "robust: Huber loss")
    p = h.list(p)
    h.check(len(p) == deg + 1, "as many coefficients as the degree asks for")
    if len(p) != deg + 1:
        h.reach()
        return
    vx, vy = var(x), var(y)
    if h.symbolic:
        sx, sy = [v.sqrt() if hasattr(v, "sqrt") else v ** 0.5 for v in (vx, vy)]
    else:
        sy, sx = vy ** 0.5, vx ** 0.5
    for k in range(n):
        h.check(h.eq(c["zero"][k] * sy, y[k], 1e-5), "residuals are of data of unit variance")
        # the scaled problem is the original one, whatever the optimum
        h.check(h.eq(y[k] - c["ans"][k] * sy, h.poly(p, x[k]), 1e-4), "the optimum is returned in original units")
        if g is not None:
            h.check(h.eq(y[k] - c["start"][k] * sy, h.poly(g, x[k]), 1e-4), "the guess is scaled like the data")
    # the residuals are data minus a polynomial in pixels of unit variance
    one = [[z - u for z, u in zip(c["zero"], v)] for v in c["unit"]]
    ok = []
    for order in ([list(range(deg + 1)), list(range(deg, -1, -1))]):
        ok.append(h.all([h.eq(one[i][k] * sx ** e, x[k] ** e, 1e-4) for i, e in enumerate(order) for k in range(n)]))
    h.check(h.any(ok), "a polynomial of pixels of unit variance")
    for k in range(n):
        lin = c["zero"][k]
        for i in range(deg + 1):
            lin = lin - probe[i] * one[i][k]
        h.check(h.eq(c["probe"][k], lin, 1e-5), "data minus polynomial")
    h.check(len(X) == n and len(Y) == n and h.all([h.same(a, b) for a, b in zip(list(X) + list(Y), x + y)]), "the data are not modified")
    if g is not None:
        h.check(len(G) == deg + 1 and h.all([h.same(a, b) for a, b in zip(list(G), g)]), "the guess is not modified")
    h.reach()


def cost(h, deg, n, form):
    """the residual function on its own: data minus polynomial, highest first"""
    f = h.func("rascal.models", "poly_cost_function")
    a = h.reals("a", deg + 1, -9, 9)
    x = h.reals("x", n, -9, 9)
    y = h.reals("y", n, -9, 9)
    r = h.list(f(h.arr(a) if form == "array" else list(a), h.arr(x), h.arr(y), deg))
    h.check(len(r) == n, "a residual per point")
    for k in range(len(r)):
        h.check(h.eq(r[k], y[k] - h.poly(a[::-1], x[k]), 1e-6), "data minus polynomial, highest order first")
    h.reach()


# listed positions have a rational standard deviation
P2, P4, P5 = [0, 2], [0, 3, 7, 12], [0, 2, 3, 4, 6]
Y2, Y4, Y5 = [2, 4], [1, 2, 5, 10], [1, 2, 4, 6, 10]


def instances(tier):
    o = dict(cost=2, split=True)
    for deg in (1, 2, 3):
        yield "cost", cost, dict(deg=deg, n=2, form="array" if deg != 2 else "list"), dict(cost=1)
    yield "fit", fit, dict(base=P2, deg=1), o
    yield "fit", fit, dict(base=P2, deg=1, guess="list"), o
    yield "fit", fit, dict(base=P4, deg=1, y0=Y4, form="list"), o
    yield "fit", fit, dict(base=P4, deg=2, y0=Y4, form="tuple"), o
    yield "fit", fit, dict(base=P4, deg=3, y0=Y4), o
    yield "fit", fit, dict(base=P4, deg=2, y0=Y4, form="intlist"), o
    yield "fit", fit, dict(base=[7, 0, 12, 3], y0=[5, 1, 10, 2], deg=2, form="intarray", guess="list"), o
    yield "fit", fit, dict(base=P4, deg=1, y0=Y4, guess="list", form="list"), o
    yield "fit", fit, dict(base=P4, deg=2, y0=Y4, guess="array"), o
    yield "fit", fit, dict(base=P4, deg=3, y0=Y4, guess="list"), o
    yield "again", twice(fit), dict(first=dict(base=P4, deg=1, y0=Y4), second=dict(base=[7, 0, 12, 3], deg=1, y0=[5, 1, 10, 2])), o
    yield "again", twice(fit), dict(first=dict(base=P4, deg=1, y0=Y4, guess="list"), second=dict(base=P4, deg=2, y0=Y4, guess="list")), o
    if tier == "thorough":
        yield "fit", fit, dict(base=P5, deg=4, y0=Y5, guess="list"), o
        yield "fit", fit, dict(base=P5, deg=2, y0=Y5, guess="array", form="list"), o
