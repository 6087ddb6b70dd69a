from vlib import cal as K
from vlib import ransac as R

PROPERTY = "C19"
BOUNDS = (
    "3-4 peaks, 3-4 lines, one or two candidates per peak; up to 2 sample fits (thorough 3) with every outcome: any coefficients of the sample fit "
    "and of the robust fit, degree 1 (thorough 2); every real wavelength, ransac tolerance, minimum fit error, peak utilisation, intercept limit; "
    "minimum matches 0-4; random and brute force sampling"
)
OUTSIDE = "longer runs; draws are taken in turns here (every draw: C21)"
STUBS = "numpy's polyfit, legfit and chebfit and rascal's robust_polyfit return arbitrary coefficients (or fail)"


def accepted(h, peaks, offsets, limit, deg=1, brute=False, tries=1, hough=((20.0, 4000.0),), guess=False, sym=(), rest=None, fail=False, size=2):
    R.rotate(h)
    lim = dict(ransac_tolerance=5.0, minimum_matches=1, minimum_peak_utilisation=0.0, minimum_fit_error=0.0)
    lim.update(rest or {})
    if "tol" in sym:
        lim["ransac_tolerance"] = h.real("tol", 0.5, 20)
    if "matches" in sym:
        lim["minimum_matches"] = h.choice("matches", [1, len(peaks) - 1, len(peaks)])
    if "use" in sym:
        lim["minimum_peak_utilisation"] = h.real("use", 0, 1)
    if "error" in sym:
        lim["minimum_fit_error"] = h.real("minerr", 0, 2)
    rt = h.real("rt", 0.5, 800) if "rt" in sym else 500.0
    rec = R.Record(
        h, limit,
        lambda k, d: [h.real("f%d_0" % k, 3000, 5000), h.real("f%d_1" % k, -10, 60)] + [h.real("f%d_%d" % (k, i), -3, 3) for i in range(2, d + 1)],
        lambda k, d: None if fail and h.flag("fails%d" % k) else [h.real("r%d_0" % k, 3900, 4100)] + [20.0] + [0.0] * (d - 1),
    )
    cal, lines, cand, tol = R.calibrator(h, peaks, offsets, hough, 4.0, ransac=dict(lim, sample_size=size), rt=rt)
    kw = dict(fit_coeff=[h.real("g0", 3900, 4100), 20.0]) if guess else dict(fit_deg=deg)
    res, err = R.run(h, cal, tol, max_tries=tries, brute_force=brute, **kw)
    if res is None:
        h.reach()
        return
    coef, x, y, rms = h.list(res[0]), h.list(res[1]), h.list(res[2]), res[3]
    n = len(x)
    h.check(n == len(y), "as many lines as peaks")
    if n != len(y):
        return
    options = []
    for r in rec.robust:
        c = r["coef"]
        if c is None or len(c) != len(coef) or len(r["x"]) != n or len(r["y"]) != n:
            continue
        f = rec.fits[r["sample"]]["coef"]
        same = [h.eq(u, v, 1e-9) for u, v in zip(coef, c)]
        same += [h.same(u, v) for u, v in zip(x, r["x"])] + [h.same(u, v) for u, v in zip(y, r["y"])]
        good = [f[0] >= 4000 - rt - 1e-9, f[0] <= 4000 + rt + 1e-9, R.increasing(h, f, peaks)]
        good += [abs(h.poly(f, u) - v) < lim["ransac_tolerance"] + 1e-9 for u, v in zip(x, y)]
        options.append(h.all(same + good))
    cons = [n >= deg + 1, n >= lim["minimum_matches"], n >= lim["minimum_peak_utilisation"] * len(peaks) - 1e-9, rms >= lim["minimum_fit_error"] - 1e-9]
    fine = h.all([h.any(options)] + cons)
    if guess:
        # or the guess, with the matches it explains
        g = kw["fit_coeff"]
        own = [h.eq(u, v, 1e-9) for u, v in zip(coef, g)] if len(coef) == 2 else [h.any([])]
        own += [abs(h.poly(g, u) - v) < lim["ransac_tolerance"] for u, v in zip(x, y)]
        fine = h.any([fine, h.all(own)])
    h.check(fine, "the solution comes from a sample that meets every limit")
    for i in range(n):
        h.check(h.any([h.all([h.same(x[i], p), h.same(y[i], lines[j])]) for p, ws in cand.items() for j in ws]), "each match is a candidate of its peak")
        for j in range(i):
            h.check(h.not_(h.same(x[i], x[j])), "no peak twice")
            h.check(h.not_(h.same(y[i], y[j])), "no line twice")
    h.reach()


def later(h, peaks, few, offsets, matches):
    """limits that were out of reach in one fit hold in the next"""
    R.rotate(h)
    rec = R.Record(
        h, 2,
        lambda k, d: [h.real("f%d_0" % k, 3900, 4100), 20.0],
        lambda k, d: [h.real("r%d_0" % k, 3900, 4100), 20.0],
    )
    cal, lines, cand, tol = R.calibrator(h, peaks, few, ((20.0, 4000.0),), 4.0, ransac=dict(ransac_tolerance=5.0, minimum_matches=matches))
    R.run(h, cal, tol, max_tries=1, fit_deg=1)
    new = [o + h.real("e%d" % i, -4, 4) for i, o in enumerate(offsets)]
    cal.set_atlas(K.make_atlas(h, new))
    res, err = R.run(h, cal, tol, max_tries=1, fit_deg=1)
    if res is not None:
        h.check(len(h.list(res[1])) >= matches, "the minimum number of matches holds in a later fit")
    h.reach()


def bases(h, kind, peaks, offsets):
    """with other bases of the sample fit the limits hold for the curve it describes"""
    import numpy as np

    R.rotate(h)
    l = [h.real("l0", 3900, 4100), h.real("l1", 10, 30), h.real("l2", -0.5, 0.5)]

    def power(c):
        return [c[0] - c[2] / 2, c[1], c[2] * 1.5] if kind == "legendre" else [c[0] - c[2], c[1], c[2] * 2]

    def fit(x, y, deg, *a, **k):
        calls.append(1)
        if len(calls) > 1:
            h.assume(False)
        return h.arr(l)

    calls = []
    rec = R.Record(h, 1, lambda k, d: None, lambda k, d: [h.real("r0", 3900, 4100), 20.0, 0.0])
    h.stub(np.polynomial.legendre.legfit, fit)
    h.stub(np.polynomial.chebyshev.chebfit, fit)
    cal, lines, cand, tol = R.calibrator(h, peaks, offsets, ((20.0, 4000.0),), 4.0, ransac=dict(sample_size=3))
    res, err = R.run(h, cal, tol, max_tries=1, fit_deg=2, fit_type=kind)
    if res is None:
        h.reach()
        return
    f = power(l)
    h.check(h.all([f[0] >= 3500 - 1e-6, f[0] <= 4500 + 1e-6, R.increasing(h, f, peaks)]), "intercept and slope of the sample's curve are within limits")
    for u, v in zip(h.list(res[1]), h.list(res[2])):
        h.check(abs(h.poly(f, u) - v) < 5 + 1e-6, "each match lies on the sample's curve")
    h.reach()


def instances(tier):
    p3, o3 = [2, 5, 9], [4040.0, 4100.0, 4180.0]
    p4, o4 = [2, 5, 9, 14], [4040.0, 4100.0, 4180.0, 4280.0]
    yield "accepted", accepted, dict(peaks=p3, offsets=o3, limit=1, sym=("tol", "matches")), dict(cost=2)
    yield "accepted", accepted, dict(peaks=p3, offsets=o3, limit=2, sym=("rt",), rest=dict(minimum_matches=3)), dict(cost=5)
    yield "accepted", accepted, dict(peaks=p3, offsets=o3, limit=1, sym=("error",)), dict(cost=5)
    yield "accepted", accepted, dict(peaks=p3, offsets=o3, limit=1, sym=("use", "tol")), dict(cost=5)
    yield "accepted", accepted, dict(peaks=p3, offsets=o3, limit=2, tries=2, sym=("tol",)), dict(cost=9)
    yield "accepted", accepted, dict(peaks=p3, offsets=o3, limit=1, tries=1, guess=True, sym=("matches",)), dict(cost=5)
    yield "accepted", accepted, dict(peaks=[2, 5, 5.3, 9], offsets=[4040.0, 4103.0, 4180.0], limit=1), dict(cost=5)
    yield "accepted", accepted, dict(peaks=[2, 5, 5.3, 9], offsets=[4040.0, 4103.0, 4180.0], limit=1, sym=("use",)), dict(cost=5)
    yield "accepted", accepted, dict(peaks=[2, 5, 7, 9], offsets=[4040.0, 4100.0, 4180.0, 4400.0], limit=1, sym=("use", "rt")), dict(cost=5)
    yield "accepted", accepted, dict(peaks=[2, 5, 7, 9], offsets=[4040.0, 4100.0, 4180.0, 4400.0], limit=1, sym=("matches",)), dict(cost=5)
    yield "accepted", accepted, dict(peaks=[2, 5, 9], offsets=[4040.0, 4098.0, 4102.0, 4180.0], limit=1), dict(cost=5)
    yield "accepted", accepted, dict(peaks=p3, offsets=o3, limit=2, fail=True, tries=2), dict(cost=9)
    yield "accepted", accepted, dict(peaks=p3, offsets=o3, limit=1, brute=True, size=3, sym=("tol",)), dict(cost=9)
    yield "later", later, dict(peaks=p3, few=o3[:2], offsets=o3, matches=3), dict(cost=5)
    for kind in ("legendre", "chebyshev"):
        yield "bases", bases, dict(kind=kind, peaks=p4, offsets=o4), dict(cost=5)
    if tier == "thorough":
        yield "accepted", accepted, dict(peaks=p3, offsets=o3, limit=3, brute=True, size=2, rest=dict(minimum_matches=3)), dict(cost=50)
        yield "accepted", accepted, dict(peaks=p4, offsets=o4, limit=1, deg=2, sym=("tol", "matches"), size=3), dict(cost=20)
        yield "accepted", accepted, dict(peaks=p4, offsets=o4, limit=2, tries=2, sym=("tol", "use")), dict(cost=40)
        yield "accepted", accepted, dict(peaks=p4, offsets=o4, limit=2, tries=1, sym=("rt", "error")), dict(cost=40)
        yield "accepted", accepted, dict(peaks=p3, offsets=o3, limit=3, tries=2, sym=("tol",)), dict(cost=40)
        yield "accepted", accepted, dict(peaks=p3, offsets=o3, limit=3, tries=3, sym=("matches",), guess=True), dict(cost=40)
        yield "accepted", accepted, dict(peaks=[2, 5, 5.3, 9], offsets=[4040.0, 4100.0, 4106.0, 4180.0], limit=2, tries=2), dict(cost=40)
        yield "accepted", accepted, dict(peaks=p3, offsets=o3, limit=3, brute=True, size=2, sym=("tol", "error")), dict(cost=40)
