import numpy as np
import scipy.optimize

from vlib.oracle import check_list
from vlib.again import twice

PROPERTY = "C07"
BOUNDS = (
    "spectra of 4-8 samples, 1-3 peaks, window half widths 1-3; every real positive sample value, every real peak position in the "
    "spectrum, not-finite samples at listed places; every fit outcome (failure, any height, any centre)"
)
OUTSIDE = "convergence of scipy's curve_fit (C34); all-negative windows; results nearer than 0.01 pixel but not equal"
STUBS = "scipy.optimize.curve_fit checks the data it is handed and returns an arbitrary Gaussian or fails"


def window(pos, width, n, finite):
    return [k for k in range(max(0, pos - width), min(pos + width, n)) if finite[k]]


def refine(h, n, npeaks, width, bad=(), integer=False, as_list=False, at=None):
    from rascal import util

    vals = h.reals("s", n, 0.5, 100)
    spectrum = [float("nan") if k in bad and bad.index(k) % 2 == 0 else float("inf") if k in bad else v for k, v in enumerate(vals)]
    finite = [k not in bad for k in range(n)]
    if at is not None:
        peaks = list(at)
    elif integer:
        peaks = [h.int("p%d" % k, 0, n - 1) for k in range(npeaks)]
    else:
        peaks = h.reals("p", npeaks, 0, n - 1)
    arg = list(spectrum) if as_list else h.arr(spectrum)
    pos = [int(p) for p in peaks]
    wins = [window(int(p), width, n, finite) for p in pos]
    expect = [k for k in range(npeaks) if wins[k]]
    calls = []

    def curve_fit(f, xdata, ydata, p0=None, *a, **kw):
        k = len(calls)
        calls.append(1)
        if k >= len(expect):
            h.check(False, "one fit per peak with data")
            raise RuntimeError("stub")
        j = expect[k]
        w = wins[j]
        x, y = h.list(xdata), h.list(ydata)
        h.check(len(x) == len(w) and len(y) == len(w), "fit %d: window of %d samples" % (k, len(w)))
        if len(x) != len(w) or len(y) != len(w):
            raise RuntimeError("stub")
        off = x[0] - w[0]
        top = h.max([vals[i] for i in w])
        for xi, yi, i in zip(x, y, w):
            h.check(h.eq(xi - off, float(i)), "fit %d: positions in the window" % k)
            h.check(h.eq(yi * top, vals[i]), "fit %d: samples normalised to the largest" % k)
        if h.choice("ok%d" % j, [True, False], memo=True):
            c = h.real("c%d" % j, -2 * n, 3 * n, memo=True)
            return np.array([h.real("h%d" % j, -5, 5, memo=True), c + off, h.real("g%d" % j, 0.1, 5, memo=True)], dtype=object if h.symbolic else float), None
        raise RuntimeError("Optimal parameters not found")

    h.stub(scipy.optimize.curve_fit, curve_fit)
    out = util.refine_peaks(arg, list(peaks), window_width=width)
    h.check(len(calls) == len(expect), "one fit per peak with data")
    kept = []
    for j in expect:
        if not h.choice("ok%d" % j, [True, False], memo=True):
            continue
        c = h.real("c%d" % j, -2 * n, 3 * n, memo=True)
        hh = h.real("h%d" % j, -5, 5, memo=True)
        h.assume(h.all([c != 0, c != n]))
        h.assume(hh != 0)
        if bool(h.all([hh > 0, c > 0, c < n])):
            if kept:
                h.assume(h.any([h.same(c, kept[-1]), abs(c - kept[-1]) > 0.01]))
            kept.append(c)
    res = []
    for k, c in enumerate(kept):
        if k and bool(h.same(c, kept[k - 1])):
            continue
        res.append(c)
    check_list(h, out, res, "refined peaks")
    for k in range(n):
        if finite[k]:
            h.check(h.same(arg[k], vals[k]), "spectrum unchanged at %d" % k)
        else:
            g, v = float(arg[k]), float(spectrum[k])
            h.check(g == v or (g != g and v != v), "spectrum unchanged at %d" % k)
    h.reach()


def shape(h):
    """the fitted function peaks at its centre with its height"""
    gauss = h.func("rascal.util", "gauss")
    a, c, s = h.real("a", 0.1, 5), h.real("c", 0, 100), h.real("s", 0.1, 5)
    h.check(h.eq(gauss(c, a, c, s), a), "height at the centre")
    d, e, t = h.real("d", 0, 10), h.real("e", 0, 10), h.real("t", 0.1, 5)
    h.check(h.eq(gauss(c + d, a, c, s), gauss(c - d, a, c, s)), "symmetric")
    h.check(h.implies(e > d + 0.01, gauss(c + e, a, c, s) < gauss(c + d, a, c, s)), "falls with distance")
    h.check(h.implies(h.all([d > 0.1, t > s + 0.01]), gauss(c + d, a, c, t) > gauss(c + d, a, c, s)), "a wider one falls slower")
    h.reach()


def instances(tier):
    yield "shape", shape, {}, dict(cost=1)
    yield "refine", refine, dict(n=6, npeaks=1, width=2), dict(cost=4)
    yield "refine", refine, dict(n=7, npeaks=1, width=3, bad=(3, 4)), dict(cost=4)
    yield "refine", refine, dict(n=5, npeaks=1, width=1, bad=(1, 2), as_list=True), dict(cost=4)
    yield "refine", refine, dict(n=5, npeaks=2, width=2), dict(cost=20)
    yield "refine", refine, dict(n=6, npeaks=2, width=1, bad=(0, 3), integer=True), dict(cost=20)
    yield "refine", refine, dict(n=4, npeaks=2, width=3, integer=True, as_list=True), dict(cost=20)
    yield "refine", refine, dict(n=9, npeaks=3, width=2, at=[1, 2.6, 7.25]), dict(cost=30)
    yield "again", twice(refine), dict(first=dict(n=4, npeaks=1, width=1, integer=True), second=dict(n=5, npeaks=1, width=1, integer=True)), dict(cost=9)
    yield "again", twice(refine), dict(first=dict(n=4, npeaks=1, width=1, at=[1.5]), second=dict(n=4, npeaks=1, width=2, at=[1.5])), dict(cost=5)
    if tier == "thorough":
        yield "refine", refine, dict(n=3, npeaks=3, width=1, integer=True), dict(cost=90)
        yield "refine", refine, dict(n=8, npeaks=2, width=3, bad=(2,)), dict(cost=60)
        yield "refine", refine, dict(n=4, npeaks=3, width=1), dict(cost=60)
        yield "refine", refine, dict(n=12, npeaks=1, width=4, bad=(5, 6)), dict(cost=20)
