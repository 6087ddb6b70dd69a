from vlib import cal as K

PROPERTY = "C27"
BOUNDS = (
    "3-5 peaks at fixed pixels, 1-3 atlas lines each within reach of one predicted wavelength, solutions of degree 1-2 shifted in their first 0-3 "
    "coefficients; every real line, shift, tolerance and minimum fraction; 4-6 pixels, in order or not"
)
OUTSIDE = "more peaks; ties between two nearest lines (both give the same score)"
STUBS = "scipy's minimize hands its objective function to the harness, which evaluates it at symbolic shifts"


def objective(h, cal, coef, nd, **kw):
    """the function that match_peaks(refine=True) minimises, with its arguments"""
    import scipy.optimize as so

    got = []

    def minimize(fun, x0, args=(), **k):
        got.append((fun, h.list(x0), args if isinstance(args, tuple) else (args,)))
        raise K.Stop()

    h.stub(so.minimize, minimize)
    try:
        cal.match_peaks(fit_coeff=coef, refine=True, n_delta=nd, robust_refit=False, **kw)
    except K.Stop:
        pass
    if len(got) != 1:
        h.skip("match_peaks does not use minimize")
    return got[0]


def score(h, peaks, around, coef, nd, reach=6.0, npix=5, pixels=None, twist=False, grad=False, tol=None, far=()):
    """twist: shifts that may turn the solution around"""
    from rascal.calibrator import Calibrator

    coef = [h.real("c0", 3990, 4010)] + list(coef[1:])
    pixels = list(range(npix)) if pixels is None else pixels
    delta = []
    for i in range(nd):
        if i == 0:
            delta.append(h.real("d0", -20, 20))
        elif i == 1:
            delta.append(h.real("d1", -2, 2) if grad else (h.choice("d1", [-15.0, -20.0, -23.0]) if twist else h.choice("d1", [0.0, -0.5])))
        else:
            delta.append(h.choice("d%d" % i, [0.0, 0.5, -2.0]) if twist else h.choice("d%d" % i, [0.0, 0.25]))
    used = [c + (delta[i] if i < nd else 0.0) for i, c in enumerate(coef)]
    lines = [h.poly(used, float(peaks[a])) + h.real("l%d" % i, -reach, reach) for i, a in enumerate(around)] + [9000.0 + 10 * i for i in far]
    tolr = h.real("tol", 0.5, 5) if tol is None else tol
    frac = h.real("frac", 0, 1)
    cal = Calibrator([float(p) for p in peaks], spectrum=[0.0] * npix)
    cal.set_calibrator_properties(num_pix=npix, pixel_list=list(pixels), log_level="critical")
    cal.set_atlas(K.make_atlas(h, lines))
    mine = list(coef)
    fun, x0, args = objective(h, cal, mine, nd, tolerance=tolr, min_frac=frac)
    h.check(len(x0) == nd, "as many coefficients are shifted as asked for")
    given = h.arr(delta)
    before = [h.list(a) for a in args if hasattr(a, "__len__")]
    got = fun(given, *args)
    after = [h.list(a) for a in args if hasattr(a, "__len__")]
    h.check(h.all([h.same(u, v) for a, b in zip(before, after) for u, v in zip(a, b)]) and h.all([h.same(a, b) for a, b in zip(mine, coef)]), "the input coefficients are not modified")
    h.check(h.all([h.same(u, v) for u, v in zip(h.list(given), delta)]), "the shifts are not modified")
    # reference
    n, ss = 0, 0.0
    for p in peaks:
        w = h.poly(used, float(p))
        best = lines[0] - w
        for l in lines[1:]:
            if bool(abs(l - w) < abs(best)):
                best = l - w
        if bool(abs(best) < tolr):
            n, ss = n + 1, ss + best * best
    dof = n - len(coef) - 1
    xs = sorted(pixels)
    v = [h.poly(used, float(x)) for x in xs]
    up = h.all([b > a for a, b in zip(v[:-1], v[1:])])
    ok = bool(h.all([dof >= 1, n >= len(peaks) * frac, up]))
    inf = isinstance(got, float) and got == float("inf")
    if not h.symbolic:
        inf = bool(got == float("inf"))
    h.check(inf == (not ok), "infinite exactly when the solution is not acceptable")
    if ok and not inf:
        h.check(h.eq(got, ss / max(dof, 1), 1e-5), "sum of squared residuals per degree of freedom")
    h.reach()


def instances(tier):
    lin, quad = [4000.0, 20.0], [4000.0, 20.0, 0.5]
    p4, p5 = [0, 1, 2, 3], [0, 1, 2, 3, 4]
    yield "score", score, dict(peaks=p4, around=[0, 1, 2, 3], coef=lin, nd=1), dict(cost=3)
    yield "score", score, dict(peaks=p4, around=[0, 1, 2, 3], coef=lin, nd=2), dict(cost=3)
    yield "score", score, dict(peaks=p4, around=[0, 1, 2, 3], coef=lin, nd=2, tol=9.0, grad=True), dict(cost=3)
    yield "score", score, dict(peaks=[0, 0.25, 2, 3], around=[0, 2, 3], coef=lin, nd=1), dict(cost=3)
    yield "score", score, dict(peaks=p5, around=[0, 1, 2, 3, 4], coef=quad, nd=2), dict(cost=5)
    yield "score", score, dict(peaks=p5, around=[0, 1, 2, 3, 4], coef=quad, nd=3, tol=9.0), dict(cost=5)
    yield "score", score, dict(peaks=p4, around=[0, 1, 2, 3], coef=lin, nd=2, tol=9.0, twist=True, reach=1.0), dict(cost=3)
    yield "score", score, dict(peaks=p5, around=[0, 1, 2, 3, 4], coef=quad, nd=3, tol=9.0, twist=True, reach=1.0, npix=6), dict(cost=5)
    yield "score", score, dict(peaks=p4, around=[0, 1, 2, 3], coef=lin, nd=1, pixels=[3, 0, 4, 1]), dict(cost=3)
    yield "score", score, dict(peaks=[0, 1, 2], around=[0, 1, 2], coef=lin, nd=1), dict(cost=2)
    yield "score", score, dict(peaks=p4 + [20], around=[0, 1, 2, 3], coef=lin, nd=1, reach=2.0, tol=3.0), dict(cost=2)
    yield "score", score, dict(peaks=p4, around=[0, 1, 2, 3, 1], coef=lin, nd=1, reach=3.0, tol=2.0), dict(cost=3)
    # more degrees of freedom
    yield "score", score, dict(peaks=p5, around=[0, 1, 2, 3, 4], coef=lin, nd=2, reach=3.0, tol=4.0), dict(cost=3)
    yield "score", score, dict(peaks=p5 + [5], around=[0, 1, 2, 3, 4, 5], coef=lin, nd=1, reach=2.0, tol=3.0), dict(cost=3)
    if tier == "thorough":
        yield "score", score, dict(peaks=p5, around=[0, 1, 2, 3, 4], coef=lin, nd=2, reach=12.0), dict(cost=60)
        yield "score", score, dict(peaks=p5, around=[0, 1, 1, 2, 3], coef=lin, nd=2, reach=12.0, tol=4.0), dict(cost=60)
        yield "score", score, dict(peaks=p5 + [5], around=[0, 1, 2, 3, 4, 5], coef=quad, nd=3, npix=8), dict(cost=60)
