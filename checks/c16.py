import itertools

import numpy as np

from vlib import cal as K
from vlib.again import twice

PROPERTY = "C16"
BOUNDS = "2-3 peaks, 1-3 lines (thorough 4 and 3), 1-2 trial lines; every real wavelength, slope, intercept, guess coefficient, offset and candidate tolerance; three pairs of range and linearity tolerance"
OUTSIDE = "pairs within 1e-6 of the tolerance (poly mode); the exact shape of the weight: only its range and that it falls with distance"
STUBS = "exp is any strictly increasing positive function with exp(0)=1; offsets of the guess are arbitrary draws"

PEAKS = [100.0, 350.0, 800.0, 950.0]


def close(h, a, b):
    return h.eq(a, b, 1e-6)


def run(h, cal, **kw):
    """the candidates that fit() works with; the sampling is not wanted"""

    def nofit(*a, **k):
        raise K.Stop()

    h.stub(np.polynomial.polynomial.polyfit, nofit)
    try:
        cal.fit(max_tries=1, progress=False, **kw)
    except (AssertionError, K.Stop):
        pass
    return [tuple(h.list(col) for col in c) for c in cal.candidates]


def setup(h, npeaks, nlines, rt, lt, **ransac):
    w = h.reals("w", nlines, 3000, 9000)
    h.increasing(w, 0.01)
    cal = K.make(h, PEAKS[:npeaks], w, hough=dict(range_tolerance=rt, linearity_tolerance=lt), ransac=dict(filter_close=False, candidate_weighted=False, **ransac))
    return cal, w, list(itertools.product(PEAKS[:npeaks], w))


def shape(h, c, label):
    n = len(c[0])
    ok = len(c[1]) == n and len(c[2]) == n
    h.check(ok, label + ": columns have one length")
    return n if ok else 0


def linear(h, npeaks, nlines, nhough, rt, lt, earlier=False):
    cal, w, pairs = setup(h, npeaks, nlines, rt, lt, linear=True)
    tol = h.real("tol", 0.1, 200)
    if earlier:
        # a fit with other trial lines and tolerance
        cal.hough_lines = [[h.real("g_before", -5, 10), h.real("c_before", 0, 9000)]]
        cal.hough_points = K.npmod().zeros((1, 2))
        run(h, cal, fit_deg=20, candidate_tolerance=h.real("tol_before", 0.1, 200))
    g, c = h.reals("g", nhough, -5, 10), h.reals("c", nhough, 0, 9000)
    cal.hough_lines = [list(x) for x in zip(g, c)]
    cal.hough_points = K.npmod().zeros((1, 2))
    got = run(h, cal, fit_deg=20, candidate_tolerance=tol)
    h.check(len(got) == nhough, "one candidate list per trial line")
    if len(got) != nhough:
        return
    for k in range(nhough):
        n = shape(h, got[k], "line %d" % k)
        xs, ws, weights = got[k]
        dist = []
        for i in range(n):
            h.check(h.any([h.all([h.same(xs[i], p), h.eq(ws[i], v, 1e-9), abs(v - (g[k] * p + c[k])) <= tol + 1e-6]) for p, v in pairs]), "each candidate is a pair within tolerance of its trial line")
            h.check(h.all([weights[i] >= 0, weights[i] <= 1 + 1e-9]), "weights lie between 0 and 1")
            dist.append(abs(ws[i] - (g[k] * xs[i] + c[k])))
            for j in range(i):
                h.check(h.implies(dist[i] > dist[j] + 1e-3, weights[i] <= weights[j]), "weights fall with distance")
                h.check(h.implies(dist[j] > dist[i] + 1e-3, weights[j] <= weights[i]), "weights fall with distance")
                h.check(h.implies(h.all([dist[i] > dist[j] + 1, dist[i] < rt]), weights[i] < weights[j]), "weights differ when distances do")
                h.check(h.implies(h.all([dist[j] > dist[i] + 1, dist[j] < rt]), weights[j] < weights[i]), "weights differ when distances do")
            h.check(h.implies(dist[i] < rt, weights[i] > 0), "weights near the line are positive")
        for p, v in pairs:
            inside = abs(v - (g[k] * p + c[k])) <= tol
            cnt = h.count([h.all([h.same(xs[i], p), h.eq(ws[i], v, 1e-9)]) for i in range(n)])
            h.check(h.implies(inside, cnt == 1), "each pair within tolerance is there once")
    h.reach()


def guess(h, npeaks, nlines, nhough, rt, deg, orient=0, earlier=False):
    cal, w, pairs = setup(h, npeaks, nlines, rt, 100.0, linear=False)
    tol = h.real("tol", 0.1, 200)
    coef = [h.real("a0", 0, 9000), h.real("a1", -5, 10)] + [h.real("a%d" % i, -0.001, 0.001) for i in range(2, deg + 1)]
    cal.hough_lines = [[1.0, 2.0]] * nhough
    cal.hough_points = K.npmod().zeros((1, 2))
    # more coefficients than peaks: the sampling has nothing to do
    if earlier:
        run(h, cal, fit_coeff=h.arr(coef + [0.0] * (6 - len(coef))), candidate_tolerance=h.real("tol_before", 0.1, 200))
    got = run(h, cal, fit_coeff=h.arr(coef + [0.0] * (6 - len(coef))), candidate_tolerance=tol)
    h.check(len(got) <= nhough, "at most one candidate list per trial line")
    res = {}
    for p, v in pairs:
        res[(p, id(v))] = v - h.poly(coef, p)
    for c in got:
        n = shape(h, c, "candidates")
        xs, ws, weights = c
        member = []
        for p, v in pairs:
            cnt = h.count([h.all([h.same(xs[i], p), h.eq(ws[i], v, 1e-9)]) for i in range(n)])
            h.check(cnt <= 1, "no pair twice")
            member.append(cnt == 1)
        h.check(h.count(member) == n, "each candidate is a pair")
        for i in range(n):
            h.check(h.all([weights[i] >= 0, weights[i] <= 1 + 1e-9]), "weights lie between 0 and 1")
        # one offset explains the list: bounds on it
        bounds = [[(True, -1, -rt - 1e-6)], [(True, 1, rt + 1e-6)]]
        for m, (p, v) in zip(member, pairs):
            r = res[(p, id(v))]
            bounds.append([(m, -1, r - tol - 1e-6)])
            bounds.append([(m, 1, r + tol + 1e-6)])
            bounds.append([(h.not_(m), 1, r - tol + 1e-6), (h.not_(m), -1, r + tol - 1e-6)])
        for i in range(n):
            for j in range(n):
                if i == j:
                    continue
                # (i is nearer than j): the offset is on i's side of the middle
                ri, rj = ws[i] - h.poly(coef, xs[i]), ws[j] - h.poly(coef, xs[j])
                near = weights[i] > weights[j] + 1e-9
                bounds.append([(h.all([near, ri < rj - 1e-3]), 1, (ri + rj) / 2 + 1e-3)])
                bounds.append([(h.all([near, ri > rj + 1e-3]), -1, (ri + rj) / 2 - 1e-3)])
        opts = []
        for combo in itertools.product(*[range(len(b)) for b in bounds]):
            chosen = [b[k] for b, k in zip(bounds, combo)]
            opts.append(h.all([h.implies(h.all([a[0], b[0]]), a[2] <= b[2]) for a in chosen if a[1] < 0 for b in chosen if b[1] > 0]))
        h.check(h.any(opts), "the list holds the pairs within tolerance of the shifted guess")
    h.reach()


def instances(tier):
    for rt, lt in ((500, 100), (50, 10), (20, 0), (20, 20), (10, 300)):
        yield "linear", linear, dict(npeaks=2, nlines=1, nhough=2, rt=rt, lt=lt), dict(cost=2)
        yield "linear", linear, dict(npeaks=1, nlines=3, nhough=1, rt=rt, lt=lt), dict(cost=2)
        if rt > lt:
            yield "linear", linear, dict(npeaks=2, nlines=2, nhough=1, rt=rt, lt=lt), dict(cost=4)
    for rt in (500, 20):
        yield "guess", guess, dict(npeaks=1, nlines=3, nhough=1, rt=rt, deg=1), dict(cost=6)
        yield "guess", guess, dict(npeaks=3, nlines=1, nhough=1, rt=rt, deg=2), dict(cost=6)
        yield "guess", guess, dict(npeaks=2, nlines=1, nhough=2, rt=rt, deg=1), dict(cost=6)
        yield "guess", guess, dict(npeaks=1, nlines=1, nhough=3, rt=rt, deg=3), dict(cost=3)
    yield "earlier", linear, dict(npeaks=1, nlines=2, nhough=1, rt=500, lt=100, earlier=True), dict(cost=4)
    yield "earlier", linear, dict(npeaks=2, nlines=1, nhough=1, rt=20, lt=20, earlier=True), dict(cost=4)
    yield "earlier", guess, dict(npeaks=1, nlines=2, nhough=1, rt=500, deg=1, earlier=True), dict(cost=6)
    yield "earlier", guess, dict(npeaks=2, nlines=1, nhough=1, rt=20, deg=2, earlier=True), dict(cost=6)
    if tier == "thorough":
        yield "linear", linear, dict(npeaks=3, nlines=2, nhough=1, rt=100, lt=50), dict(cost=30)
        yield "linear", linear, dict(npeaks=2, nlines=3, nhough=1, rt=100, lt=50), dict(cost=30)
        yield "linear", linear, dict(npeaks=2, nlines=2, nhough=2, rt=100, lt=50), dict(cost=50)
        yield "guess", guess, dict(npeaks=2, nlines=2, nhough=1, rt=100, deg=2), dict(cost=50)
        yield "guess", guess, dict(npeaks=4, nlines=1, nhough=1, rt=100, deg=1), dict(cost=50)
