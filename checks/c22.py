from vlib import cal as K
from vlib import ransac as R

PROPERTY = "C22"
BOUNDS = (
    "3-4 peaks with one or two candidate lines, 1-2 sample fits of any outcome, guesses of degree 1-2 with any coefficients, one or two fits in a row "
    "(the second acceptable, rejected, or short of candidates); every real wavelength, robust fit and ransac tolerance"
)
OUTSIDE = "longer histories; rms of a guess that explains no peak"
STUBS = "numpy's polyfit and rascal's robust_polyfit return arbitrary coefficients; draws are taken in turns"


def consistent(h, cal, res, peaks, natlas, deg, tol_r, label):
    coef, x, y, rms, resid, pu, au = res
    coef, x, y, resid = h.list(coef), h.list(x), h.list(y), h.list(resid)
    h.check(len(coef) == deg + 1, label + ": as many coefficients as the degree asks for")
    h.check(len(x) == len(y) == len(resid), label + ": peaks, lines and residuals match")
    if not len(x) == len(y) == len(resid):
        return
    sq = 0.0
    for u, v, r in zip(x, y, resid):
        e = h.poly(coef, u) - v
        big = abs(e) > tol_r
        h.check(h.any([h.all([h.not_(big), h.eq(r, e, 1e-6)]), h.all([big, h.eq(abs(r), tol_r, 1e-6)]), h.all([abs(e) > tol_r - 1e-6, h.eq(abs(r), tol_r, 1e-5)])]), label + ": residuals are polynomial minus line")
        h.check(h.any([h.same(u, p) for p in peaks]), label + ": matched peaks are peaks")
        sq = sq + r * r
    if len(x):
        if h.symbolic:
            # without a root
            h.check(h.all([rms >= 0, h.eq(rms ** 2, sq / len(x), 1e-6)]), label + ": rms is that of the residuals")
        else:
            h.check(h.eq(rms, (sq / len(x)) ** 0.5, 1e-5), label + ": rms is that of the residuals")
    h.check(h.eq(pu, len(x) / len(peaks), 1e-9), label + ": peak utilisation")
    h.check(h.eq(au, len(x) / natlas, 1e-9), label + ": atlas utilisation")
    stored = [
        ("fit_coeff", cal.fit_coeff, coef), ("matched_peaks", cal.matched_peaks, x), ("matched_atlas", cal.matched_atlas, y), ("residual", cal.residual, resid),
    ]
    for n, a, b in stored:
        a = h.list(a)
        h.check(len(a) == len(b) and h.all([h.same(u, v) for u, v in zip(a, b)]), label + ": %s is stored" % n)
    for n, a, b in (("rms", cal.rms, rms), ("peak_utilisation", cal.peak_utilisation, pu), ("atlas_utilisation", cal.atlas_utilisation, au)):
        h.check(h.eq(a, b, 1e-9), label + ": %s is stored" % n)


def make(h, peaks, offsets, limit, tol_r=5.0, spread=4.0, robust=None, matches=1, size=2, rdeg=None, ranges=(-10, 60), lines=None):
    R.rotate(h)
    rec = R.Record(
        h, limit,
        lambda k, d: [h.real("f%d_0" % k, 3900, 4100), h.real("f%d_1" % k, *ranges)] + [0.0] * (d - 1),
        robust or (lambda k, d: [h.real("r%d_0" % k, 3950, 4050), 20.0] + [0.0] * (d - 1)),
    )
    cal, lines, cand, tol = R.calibrator(h, peaks, offsets, ((20.0, 4000.0),), spread, ransac=dict(ransac_tolerance=tol_r, minimum_matches=matches, sample_size=size), lines=lines)
    return rec, cal, lines, cand, tol


def report(h, peaks, offsets, limit=1, tries=1, sym=False, deg=1, extra=0, brute=False, size=2):
    """extra: peaks far from every line, and lines far from every peak"""
    peaks = peaks + [11.5] * extra
    offsets = offsets + [7000.0] * extra
    tol_r = h.real("tol", 0.5, 20) if sym else 5.0
    rec, cal, lines, cand, tol = make(h, peaks, offsets, limit, tol_r, size=size)
    res, err = R.run(h, cal, tol, max_tries=tries, fit_deg=deg, brute_force=brute)
    if res is None:
        h.check(len(h.list(cal.matched_peaks)) == len(h.list(cal.matched_atlas)) == 0, "nothing is matched when nothing is found")
    else:
        consistent(h, cal, res, [float(p) for p in peaks], len(lines), deg, tol_r, "fit")
    h.reach()


def guess(h, peaks, offsets, deg=1, tries=0, limit=0, spread=4.0, few=False, ask=None):
    """a guess is matched, beaten or returned"""
    rec, cal, lines, cand, tol = make(h, peaks, offsets, limit, spread=spread, matches=2 if few else 1)
    g = [h.real("g0", 3950, 4050), 20.0] + [h.real("g%d" % i, -0.01, 0.01) for i in range(2, deg + 1)]
    mine = h.arr(g)
    kw = dict(fit_deg=ask) if ask else {}
    res, err = R.run(h, cal, tol, max_tries=tries, fit_coeff=mine, **kw)
    h.check(h.all([h.same(a, b) for a, b in zip(h.list(mine), g)]), "the caller's guess is not modified")
    if res is None:
        h.check(tries > 0 or few, "the guess is returned")
        h.check(len(h.list(cal.matched_peaks)) == len(h.list(cal.matched_atlas)) == 0, "nothing is matched when nothing is found")
    else:
        same = h.all([h.eq(a, b, 1e-9) for a, b in zip(h.list(res[0]), g)])
        if not rec.robust:
            h.check(same, "no other solution than the guess")
            m = R.match(h, cand, lines, g)
            for u, v in zip(h.list(res[1]), h.list(res[2])):
                h.check(abs(h.poly(g, u) - v) < 5 + 1e-9, "matches of the guess lie on it")
        consistent(h, cal, res, [float(p) for p in peaks], len(lines), deg, 5.0, "guess")
    h.reach()


def second(h, peaks, offsets, how):
    """a second fit reports its own solution, or nothing"""
    rec, cal, lines, cand, tol = make(h, peaks, offsets, 2, robust=lambda k, d: [h.real("r%d_0" % k, 3999, 4001), 20.0] + [0.0] * (d - 1), ranges=(19.0, 21.0), lines=list(offsets))
    R_first, err = R.run(h, cal, tol, max_tries=1, fit_deg=1)
    if R_first is None or len(rec.fits) != 1:
        h.assume(False)
    first = [h.list(R_first[i]) for i in (0, 1, 2)]
    kw = dict(max_tries=1, fit_deg=1)
    n = len(lines)
    if how == "other atlas":
        other = [o + 1.0 for o in offsets] + [7000.0]
        cal.set_atlas(K.make_atlas(h, other))
        lines, n = other, n + 1
        cal.hough_points = K.npmod().zeros((1, 2))
    elif how == "no lines":
        cal.set_atlas(K.make_atlas(h, [8000.0, 8100.0]))
        n = 2
    elif how == "rejected":
        rec.coef = lambda k, d: [4000.0, h.real("down%d" % k, -9, -1)]
        rec.limit, rec.stop = 110, "stop"
    elif how == "guess":
        kw = dict(max_tries=0, fit_coeff=h.arr([h.real("g0", 3950, 4050), 20.0]))
    elif how == "far guess":
        kw = dict(max_tries=0, fit_coeff=h.arr([6000.0, h.real("g1", 20, 30)]))
    res, err = R.run(h, cal, tol, **kw)
    if how == "same" and len(rec.fits) == 2:
        # what the second sample is worth does not depend on the first
        c = rec.fits[1]["coef"]
        R.no_ties(h, cand, lines, c)
        m = R.match(h, cand, lines, c)
        for p, i, chosen, wins, e in m:
            h.assume(h.not_(h.eq(e, 5.0, 1e-6)))
        good = h.count([h.all([wins, e < 5.0]) for p, i, chosen, wins, e in m]) >= 2
        h.check(h.iff(good, res is not None), "a second fit returns what it finds")
    if res is None:
        mp, ma = h.list(cal.matched_peaks), h.list(cal.matched_atlas)
        h.check(len(mp) == len(ma) == 0, "a failed fit does not report another solution's matches")
    else:
        h.check(how not in ("no lines", "rejected"), "nothing acceptable, nothing returned")
        consistent(h, cal, res, [float(p) for p in peaks], n, 1, 5.0, "second fit")
        if how == "other atlas":
            h.check(h.all([h.any([h.same(v, w) for w in lines]) for v in h.list(res[2])]), "lines are those of the atlas in use")
        if how == "far guess":
            h.check(len(h.list(res[1])) == 0, "a guess that explains nothing matches nothing")
    h.reach()


def instances(tier):
    p3, o3 = [2, 5, 9], [4040.0, 4100.0, 4180.0]
    p4, o4 = [2, 5, 9, 14], [4040.0, 4100.0, 4180.0, 4280.0]
    yield "report", report, dict(peaks=p3, offsets=o3, sym=True), dict(cost=3)
    yield "report", report, dict(peaks=p3, offsets=o3, extra=1), dict(cost=3)
    yield "report", report, dict(peaks=p4, offsets=o4, deg=2, size=3), dict(cost=3)
    yield "report", report, dict(peaks=p3, offsets=o3, limit=2, tries=2), dict(cost=5)
    yield "report", report, dict(peaks=p3, offsets=o3, brute=True, size=3), dict(cost=5)
    yield "guess", guess, dict(peaks=p3, offsets=o3), dict(cost=3)
    yield "guess", guess, dict(peaks=p3, offsets=o3, ask=4), dict(cost=3)
    yield "guess", guess, dict(peaks=p4, offsets=o4, deg=2), dict(cost=3)
    yield "guess", guess, dict(peaks=p3, offsets=o3, tries=1, limit=1), dict(cost=5)
    yield "guess", guess, dict(peaks=[2, 5, 5.2], offsets=[4040.0, 4102.0], spread=4.0), dict(cost=3)
    yield "guess", guess, dict(peaks=[2, 5], offsets=[4040.0, 4100.0], deg=2, few=True), dict(cost=1)
    for how in ("same", "other atlas", "no lines", "rejected", "guess", "far guess"):
        yield "second", second, dict(peaks=p3, offsets=o3, how=how), dict(cost=5)
    if tier == "thorough":
        yield "report", report, dict(peaks=p4, offsets=o4, sym=True, limit=2, tries=2, extra=1), dict(cost=20)
        yield "report", report, dict(peaks=p3, offsets=o3, sym=True, limit=3, tries=2), dict(cost=20)
        yield "report", report, dict(peaks=p4, offsets=o4, deg=2, size=3, limit=2, tries=2), dict(cost=20)
        yield "guess", guess, dict(peaks=p3, offsets=o3, tries=2, limit=2), dict(cost=20)
        yield "guess", guess, dict(peaks=[2, 5, 5.2, 9], offsets=[4040.0, 4098.0, 4106.0, 4180.0], spread=6.0, deg=2), dict(cost=20)
        for how in ("same", "other atlas", "guess"):
            yield "second", second, dict(peaks=p4, offsets=o4, how=how), dict(cost=9)
