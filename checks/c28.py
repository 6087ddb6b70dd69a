import numpy as np

from vlib import cal as K
from vlib.again import twice

PROPERTY = "C28"
BOUNDS = (
    "1-3 wavelengths (thorough 4) anywhere, in any order, as list or array; any limits; models of 2-4 coefficients (thorough 5) of any value, "
    "replaced by another model of any of these sizes in between; limits replaced by valid and invalid ones"
)
OUTSIDE = "models that are not increasing (no inverse); single-coefficient models; numerical accuracy of pynverse"
STUBS = "pynverse's inversefunc returns any pixel at which the function it is given takes the wavelength"


def inverse(h):
    import pynverse

    n = [0]

    def inversefunc(func, y_values=None, *a, **k):
        if y_values is None:
            return lambda y: inversefunc(func, y)
        out = []
        for y in h.list(np.asarray(y_values) if not isinstance(y_values, np.ndarray) else y_values):
            x = h.real("inv%d" % n[0], 0, 1024)
            n[0] += 1
            h.assume(h.eq(func(x), y, 1e-6 if not h.symbolic else 1e-9))
            out.append(x)
        return h.arr(out)

    h.stub(pynverse.inversefunc, inversefunc)


def coefficients(h, tag, n, form):
    if n == 2:
        # intercept, gradient
        c = [h.real(tag + "0", 100, 400), h.real(tag + "1", 0.5, 4)]
    else:
        # highest first
        c = [h.real(tag + "%d" % i, 0, 2 ** -8) for i in range(n - 2)] + [h.real(tag + "%d" % (n - 2), 0.5, 4), h.real(tag + "%d" % (n - 1), 100, 400)]
    return c, (list(c) if form == "list" else h.arr(c))


def value(h, c, x):
    return h.poly(c if len(c) == 2 else c[::-1], x)


def pixels(h, sizes, nw, form="list", limits="ctor", init=True, earlier=None):
    """the last of the models given decides, also when the same wavelengths
    were asked for before"""
    from rascal.synthetic import SyntheticSpectrum

    inverse(h)
    lo, hi = h.real("lo", 100, 2000), h.real("hi", 100, 2000)
    h.assume(hi > lo)
    kw = {}
    if limits == "ctor":
        kw = dict(min_wavelength=lo, max_wavelength=hi)
    first, arg = coefficients(h, "a", sizes[0], form)
    if init:
        s = SyntheticSpectrum(arg, **kw)
    else:
        s = SyntheticSpectrum(**kw)
        s.set_model(arg)
    if limits == "both":
        s.set_wavelength_limit(lo, hi)
    elif limits == "one":
        # default limits, one at a time
        h.assume(h.all([lo < 1200, hi > lo]))
        s.set_wavelength_limit(min_wavelength=lo)
        s.set_wavelength_limit(max_wavelength=hi)
    elif limits == "default":
        lo, hi = 200.0, 1200.0
    c = first
    w = [h.real("w%d" % i, 50, 2500) for i in range(nw)]
    mine = list(w) if form == "list" else h.arr(w)
    if earlier == "model":
        s.get_pixels(mine)
    elif earlier == "limits":
        s.get_pixels(mine)
        lo, hi = h.real("lo2", 100, 2000), h.real("hi2", 100, 2000)
        h.assume(hi > lo)
        s.set_wavelength_limit(lo, hi)
    for k, n in enumerate(sizes[1:]):
        c, arg = coefficients(h, "m%d_" % k, n, form)
        s.set_model(arg)
    px, wv = s.get_pixels(mine)
    px, wv = h.list(px), h.list(wv)
    inside = [bool(h.all([x > lo, x < hi])) for x in w]
    want = [x for x, i in zip(w, inside) if i]
    h.check(len(px) == len(wv) == len(want), "exactly the wavelengths inside the limits")
    if len(px) == len(wv) == len(want):
        for p, v, x in zip(px, wv, want):
            h.check(h.same(v, x), "wavelengths in the order given")
            h.check(h.eq(value(h, c, p), x, 1e-5), "the pixel at which the model takes the wavelength")
    h.check(h.all([h.same(a, b) for a, b in zip(h.list(mine), w)]), "the request is not modified")
    h.check(h.all([h.same(a, b) for a, b in zip(h.list(arg), c)]), "the coefficients are not modified")
    h.reach()


def limits(h, how):
    """only valid limits are taken"""
    from rascal.synthetic import SyntheticSpectrum

    lo, hi = h.real("lo", 100, 2000), h.real("hi", 100, 2000)
    h.assume(hi > lo)
    s = SyntheticSpectrum([100.0, 1.0], lo, hi)
    a, b = h.real("a", 100, 2000), h.real("b", 100, 2000)
    exp = (lo, hi)
    ok = True
    try:
        if how == "both":
            valid = b > a
            s.set_wavelength_limit(a, b)
        elif how == "min":
            valid = hi > a
            s.set_wavelength_limit(min_wavelength=a)
        elif how == "max":
            valid = b > lo
            s.set_wavelength_limit(max_wavelength=b)
        elif how == "none":
            valid = True
            s.set_wavelength_limit()
        elif how == "bad min":
            valid = False
            s.set_wavelength_limit("100", b)
        elif how == "bad max":
            valid = False
            s.set_wavelength_limit(a, [b])
    except (TypeError, RuntimeError):
        ok = False
    h.check(h.iff(ok, valid), "limits are accepted exactly when they are valid")
    if ok:
        exp = (a if how in ("both", "min") else lo, b if how in ("both", "max") else hi)
    w = h.real("w", 50, 2500)
    px, wv = s.get_pixels([w])
    h.check(h.iff(len(h.list(px)) == 1, h.all([w > exp[0], w < exp[1]])), "the limits in force")
    h.reach()


def instances(tier):
    yield "pixels", pixels, dict(sizes=[2], nw=3), dict(cost=2)
    yield "pixels", pixels, dict(sizes=[2], nw=2, form="array", limits="both"), dict(cost=1)
    yield "pixels", pixels, dict(sizes=[3], nw=2, limits="one"), dict(cost=2)
    yield "pixels", pixels, dict(sizes=[4], nw=2, form="array", limits="default"), dict(cost=2)
    yield "pixels", pixels, dict(sizes=[4, 2], nw=2, limits="default"), dict(cost=2)
    yield "pixels", pixels, dict(sizes=[2, 3], nw=2, form="array", limits="both"), dict(cost=2)
    yield "pixels", pixels, dict(sizes=[3, 4], nw=1), dict(cost=2)
    yield "pixels", pixels, dict(sizes=[4, 3, 2], nw=1, init=False), dict(cost=2)
    yield "pixels", pixels, dict(sizes=[3, 3], nw=1), dict(cost=2)
    yield "pixels", pixels, dict(sizes=[5], nw=1), dict(cost=2)
    for how in ("both", "min", "max", "none", "bad min", "bad max"):
        yield "limits", limits, dict(how=how), dict(cost=1)
    yield "again", twice(pixels), dict(first=dict(sizes=[2], nw=1), second=dict(sizes=[3], nw=1)), dict(cost=2)
    for e in ("model", "limits"):
        yield "earlier", pixels, dict(sizes=[2, 3], nw=2, earlier=e), dict(cost=2)
        yield "earlier", pixels, dict(sizes=[3, 3], nw=1, earlier=e, form="array", limits="both"), dict(cost=2)
    if tier == "thorough":
        yield "pixels", pixels, dict(sizes=[5, 4], nw=2), dict(cost=9)
        yield "pixels", pixels, dict(sizes=[2], nw=4), dict(cost=9)
        yield "pixels", pixels, dict(sizes=[3], nw=4), dict(cost=9)
