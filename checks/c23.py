import itertools

import numpy as np

from vlib import cal as K
from vlib import ransac as R

PROPERTY = "C23"
BOUNDS = (
    "2-3 peaks (thorough 4) at fixed pixels, 1-3 atlas lines, solutions of degree 1-2; every real wavelength within reach, every tolerance, every shift "
    "found by the refinement and every outcome of the refit; coefficients given as list or array or taken from the last fit"
)
OUTSIDE = "more peaks or lines; peaks at other pixels"
STUBS = (
    "scipy's linear_sum_assignment returns any assignment of least total cost; scipy's minimize and rascal's robust_polyfit return arbitrary results"
)


def make(h, peaks, lines, stored=None, num_pix=20):
    from rascal.calibrator import Calibrator

    cal = Calibrator(list(peaks), spectrum=[0.0] * num_pix)
    cal.set_calibrator_properties(num_pix=num_pix, pixel_list=list(range(num_pix)), log_level="critical")
    cal.set_atlas(K.make_atlas(h, lines))
    if stored is not None:
        cal.fit_coeff = h.arr(stored)
    return cal


def nearby(h, coef, peaks, nlines, around, reach):
    """lines anywhere within reach of the named peaks' predictions"""
    out = []
    for i in range(nlines):
        out.append(h.poly(coef, peaks[around[i]]) + h.real("d%d" % i, -reach, reach))
    # (kept exact for the replay: distinct lines)
    for i in range(nlines):
        for j in range(i):
            h.assume(h.any([out[i] - out[j] > 0.01, out[j] - out[i] > 0.01]))
    return out


def judged(h, res, peaks, lines, coef, tol, label, final=None):
    """res as match_peaks returns it; coef: the solution the matches are
    judged by; final: the solution returned"""
    final = coef if final is None else final
    c, x, y, rms, resid, pu, au = res
    c, x, y, resid = h.list(c), h.list(x), h.list(y), h.list(resid)
    h.check(len(c) == len(final) and h.all([h.eq(a, b, 1e-7) for a, b in zip(c, final)]), label + ": coefficients returned")
    h.check(len(x) == len(y) == len(resid), label + ": lists are aligned")
    if not len(x) == len(y) == len(resid):
        return
    err = {(i, j): abs(h.poly(coef, float(p)) - l) for i, p in enumerate(peaks) for j, l in enumerate(lines)}
    hit = {i: h.any([err[i, j] < tol for j in range(len(lines))]) for i in range(len(peaks))}
    who = []
    for u in x:
        i = [i for i, p in enumerate(peaks) if bool(h.same(u, float(p)))]
        h.check(len(i) == 1, label + ": matched peaks are peaks")
        if len(i) != 1:
            return
        who.append(i[0])
    h.check(len(set(who)) == len(who), label + ": each peak once")
    for i in range(len(peaks)):
        h.check(h.iff(i in who, hit[i]), label + ": a peak is matched when a line is within the tolerance")
    for i, v in zip(who, y):
        h.check(h.any([h.all([h.same(v, lines[j]), err[i, j] < tol]) for j in range(len(lines))]), label + ": matched with a line within the tolerance")
    n, m = len(who), len(lines)
    err_of = []
    for i, v in zip(who, y):
        err_of.append(abs(h.poly(coef, float(peaks[i])) - v))
    total = sum(err_of, 0.0)
    distinct = h.all([h.not_(h.same(a, b)) for a, b in itertools.combinations(y, 2)])
    for a in itertools.permutations(range(m), n):
        # a set of distinct lines within the tolerance
        ok = h.all([err[i, j] < tol for i, j in zip(who, a)])
        h.check(h.implies(ok, distinct), label + ": lines are not shared when there are enough")
        h.check(h.implies(ok, total <= sum((err[i, j] for i, j in zip(who, a)), 0.0) + 1e-6), label + ": smallest total error")
    if n > 1:
        # lines shared: no more than need be
        for k in range(2, min(n, m) + 1):
            for sub in itertools.combinations(range(n), k):
                for a in itertools.permutations(range(m), k):
                    ok = h.all([err[who[s], j] < tol for s, j in zip(sub, a)])
                    d = h.any([h.all([h.not_(h.same(y[p], y[q])) for p, q in itertools.combinations(t, 2)]) for t in itertools.combinations(range(n), k)])
                    h.check(h.implies(ok, d), label + ": as many distinct lines as there can be")
    sq = 0.0
    for u, v, r in zip(x, y, resid):
        h.check(h.eq(r, v - h.poly(final, u), 1e-6), label + ": residuals are line minus polynomial")
        sq = sq + r * r
    if n:
        if h.symbolic:
            h.check(h.all([rms >= 0, h.eq(rms ** 2, sq / n, 1e-6)]), label + ": rms is that of the residuals")
        else:
            h.check(h.eq(rms, (sq / n) ** 0.5, 1e-6), label + ": rms is that of the residuals")
    h.check(h.eq(pu, n / len(peaks), 1e-9), label + ": peak utilisation")
    h.check(h.eq(au, n / m, 1e-9), label + ": atlas utilisation")


def stored(h, cal, res, label):
    c, x, y, rms, resid, pu, au = res
    for n, a, b in (("fit_coeff", cal.fit_coeff, c), ("matched_peaks", cal.matched_peaks, x), ("matched_atlas", cal.matched_atlas, y), ("residuals", cal.residuals, resid)):
        a, b = h.list(a), h.list(b)
        h.check(len(a) == len(b) and h.all([h.same(u, v) for u, v in zip(a, b)]), label + ": %s is stored" % n)
    for n, a, b in (("rms", cal.rms, rms), ("peak_utilisation", cal.peak_utilisation, pu), ("atlas_utilisation", cal.atlas_utilisation, au)):
        h.check(h.eq(a, b, 1e-9), label + ": %s is stored" % n)


def match(h, peaks, around, reach, refine=False, refit=False, deg=1, how="list", n_delta=None, fit_deg=None, tol=None, grad=20.0):
    K.assignment(h)
    import rascal.models as rm
    import scipy.optimize as so

    coef = [h.real("c0", 3990, 4010), grad] + [0.125] * (deg - 1)
    tolr = h.real("tol", 1, 20) if tol is None else tol
    given = list(coef) if how == "list" else h.arr(coef)
    nd = n_delta or len(coef) - 1
    delta = [h.real("delta%d" % i, -3, 3) if i == 0 else h.choice("delta%d" % i, [0.0, 0.25]) for i in range(nd)] if refine else []
    used = [c + (delta[i] if i < len(delta) else 0.0) for i, c in enumerate(coef)]
    lines = nearby(h, used if refine else coef, peaks, len(around), around, reach)
    seen = []

    def minimize(fun, x0, args=(), **k):
        seen.append((fun, h.list(x0), args))
        h.check(len(h.list(x0)) == nd, "as many coefficients are shifted as asked for")

        class Res:
            x = h.arr(delta)

        return Res

    h.stub(so.minimize, minimize)
    fd = fit_deg if fit_deg is not None else deg
    new = [h.real("n0", 3990, 4010), 20.0] + [0.0] * (fd - 1)
    refits = []

    def robust(x, y, degree=3, x0=None, **k):
        refits.append((h.list(x), h.list(y), int(degree)))
        return h.arr(new)

    h.stub(rm.robust_polyfit, robust)
    cal = make(h, peaks, lines, stored=coef if how == "stored" else [1.0, 2.0])
    kw = {}
    if how != "stored":
        kw["fit_coeff"] = given
    if n_delta:
        kw["n_delta"] = n_delta
    if fit_deg is not None:
        kw["fit_deg"] = fit_deg
    try:
        res = cal.match_peaks(refine=refine, robust_refit=refit, tolerance=tolr, **kw)
    except AssertionError:
        res = None
    h.check(h.all([h.same(a, b) for a, b in zip(h.list(given), coef)]) and len(h.list(given)) == len(coef), "the caller's coefficients are not modified")
    if res is None:
        for p in peaks:
            for l in lines:
                h.check(abs(h.poly(used, float(p)) - l) >= tolr, "an error only when no peak is explained")
    else:
        h.check(bool(seen) == refine, "refined when asked for")
        h.check(len(refits) == int(refit), "refitted when asked for")
        final = used
        if refit and len(refits) == 1:
            final = new
            x, y, d = refits[0]
            h.check(d == fd, "refit of the requested degree")
            rx, ry = h.list(res[1]), h.list(res[2])
            h.check(len(x) == len(rx) and len(y) == len(ry) and h.all([h.same(a, b) for a, b in zip(x + y, rx + ry)]), "the refit is of the matched pairs")
        judged(h, res, peaks, lines, used, tolr, "match", final)
        stored(h, cal, res, "match")
    h.reach()


def failed_refinement(h, peaks):
    """the optimiser does not find anything: the input is returned"""
    import scipy.optimize as so

    K.assignment(h)
    coef = [h.real("c0", 3990, 4010), 20.0]
    which = h.choice("which", [0, 1])

    def minimize(fun, x0, args=(), **k):
        class Res:
            x = np.array([float("nan") if i == which or which else 0.0 for i in range(len(h.list(x0)))])

        return Res

    h.stub(so.minimize, minimize)
    lines = [h.real("l%d" % i, 4000, 4100) for i in range(2)]
    cal = make(h, peaks, lines)
    given = h.arr(coef)
    res = cal.match_peaks(fit_coeff=given, refine=True, n_delta=1 + which, robust_refit=False)
    h.check(h.all([h.same(a, b) for a, b in zip(h.list(res[0]), coef)]), "the input solution is returned")
    h.check(all(r is None for r in res[1:]), "nothing else is reported")
    h.reach()


def failed_refit(h, peaks, around, reach):
    """no robust fit: the input solution and its own matches are returned"""
    K.assignment(h)
    import rascal.models as rm

    coef = [h.real("c0", 3990, 4010), 20.0]
    tol = h.real("tol", 1, 20)
    h.stub(rm.robust_polyfit, lambda x, y, degree=3, x0=None, **k: np.array([float("nan")] * (degree + 1)))
    lines = nearby(h, coef, peaks, len(around), around, reach)
    cal = make(h, peaks, lines)
    try:
        res = cal.match_peaks(fit_coeff=list(coef), tolerance=tol)
    except AssertionError:
        h.reach()
        return
    judged(h, res, peaks, lines, coef, tol, "no refit")
    h.reach()


def instances(tier):
    p2, p3 = [3, 8], [3, 5, 12]
    yield "match", match, dict(peaks=p2, around=[0, 1], reach=30), dict(cost=2)
    yield "match", match, dict(peaks=[3, 3.5], around=[0, 1], reach=25, how="array"), dict(cost=3)
    yield "match", match, dict(peaks=[8, 3, 3.5], around=[1, 2], reach=25, how="stored"), dict(cost=4)
    yield "match", match, dict(peaks=[3, 3.25, 3.5], around=[1], reach=25), dict(cost=2)
    yield "match", match, dict(peaks=[3, 3.25, 3.5], around=[0, 1, 2], reach=12, tol=9.0), dict(cost=20)
    yield "match", match, dict(peaks=p2, around=[0, 0, 1], reach=25), dict(cost=5)
    yield "match", match, dict(peaks=p2, around=[0, 1], reach=30, refine=True), dict(cost=3)
    yield "match", match, dict(peaks=p2, around=[0, 1], reach=15, refine=True, n_delta=2, deg=2, how="array"), dict(cost=3)
    yield "match", match, dict(peaks=p2, around=[0, 1], reach=15, refine=True, refit=True, how="stored"), dict(cost=3)
    yield "match", match, dict(peaks=p2, around=[0, 1], reach=25, refit=True), dict(cost=3)
    yield "match", match, dict(peaks=p3, around=[0, 2], reach=25, refit=True, fit_deg=2, how="array"), dict(cost=3)
    yield "match", match, dict(peaks=p3, around=[0, 1, 2], reach=12, refit=True, fit_deg=1, deg=2), dict(cost=3)
    yield "match", match, dict(peaks=p3, around=[0, 2], reach=25, refit=True, deg=2, how="stored"), dict(cost=3)
    yield "failed_refinement", failed_refinement, dict(peaks=p2), dict(cost=1)
    yield "failed_refit", failed_refit, dict(peaks=p2, around=[0, 1], reach=25), dict(cost=3)
    if tier == "thorough":
        yield "match", match, dict(peaks=[3, 3.25, 3.5], around=[0, 1, 2], reach=25), dict(cost=90)
        yield "match", match, dict(peaks=[3, 3.25, 3.5, 9], around=[0, 1, 3], reach=12, tol=9.0), dict(cost=90)
        yield "match", match, dict(peaks=p3, around=[0, 1, 2], reach=25, refine=True, refit=True), dict(cost=30)
        yield "match", match, dict(peaks=p3, around=[0, 0, 1, 2], reach=12, tol=9.0), dict(cost=60)


