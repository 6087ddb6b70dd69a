import numpy as np

from vlib import cal as K
from vlib.again import twice

PROPERTY = "C18"
BOUNDS = "2-4 peaks, 1-4 lines, up to 3 candidates per peak in every order; every real wavelength, every straight line and (thorough) parabola as solution, every ransac tolerance"
OUTSIDE = "which of two equally near candidates or peaks wins"
STUBS = "scipy and random numbers are not used here"


def judge(h, cand, coef, got, tol, label):
    """cand: {peak: [wavelengths]}; got: list of (x, y, err or None)"""
    err = {(p, i): abs(h.poly(coef, p) - w) for p, ws in cand.items() for i, w in enumerate(ws)}
    for i, (x, y, e) in enumerate(got):
        ok = []
        for p, ws in cand.items():
            for j, w in enumerate(ws):
                near = h.all([err[p, j] <= err[p, k] for k in range(len(ws))])
                ok.append(h.all([h.same(x, p), h.same(y, w), near] + ([] if e is None else [h.eq(e, err[p, j], 1e-9)]) + ([] if tol is None else [err[p, j] < tol])))
        h.check(h.any(ok), label + ": each match is a peak with its nearest candidate and its error")
        for j in range(i):
            h.check(h.not_(h.same(x, got[j][0])), label + ": no peak twice")
            h.check(h.not_(h.same(y, got[j][1])), label + ": no line twice")
    for p, ws in cand.items():
        for j, w in enumerate(ws):
            first = h.all([err[p, j] < err[p, k] for k in range(len(ws)) if k != j] + ([] if tol is None else [err[p, j] < tol]))
            there = []
            for x, y, e in got:
                px = h.any([h.all([h.same(x, q), abs(h.poly(coef, q) - w) <= err[p, j] + 1e-9]) for q in cand])
                there.append(h.all([h.same(y, w), px]))
            h.check(h.implies(first, h.any(there)), label + ": every chosen line goes to the peak that fits it best")


def coefs(h, deg, a0=(3000, 7000)):
    return [h.real("a0", *a0), h.real("a1", 0.5, 3)] + [h.real("a%d" % i, -0.001, 0.001) for i in range(2, deg + 1)]


def direct(h, cand, nlines, deg=1):
    """cand: {peak: [line numbers]}"""
    lines = h.reals("w", nlines, 3000, 9000)
    h.distinct(lines)
    cal = K.make(h, [100.0, 300.0], [5000.0])
    f = K.private(h, cal, "_match_bijective")
    cal.polyval = K.polyval(h)
    a = coefs(h, deg)
    c = {float(p): [lines[i] for i in ws] for p, ws in cand.items()}
    err, x, y = f({p: h.arr(ws) for p, ws in c.items()}, np.array(sorted(c)), h.arr(a))
    err, x, y = h.list(err), h.list(x), h.list(y)
    h.check(len(err) == len(x) == len(y), "columns have one length")
    if len(err) == len(x) == len(y):
        judge(h, c, a, list(zip(x, y, err)), None, "direct")
    h.reach()


def guess(h, peaks, offsets, hough, deg=1):
    """a guess handed to fit() is matched and returned when no sample is drawn;
    candidates come from trial lines"""
    lines = [o + h.real("d%d" % i, -5, 5) for i, o in enumerate(offsets)]
    cal = K.make(h, peaks, lines, ransac=dict(filter_close=False, top_n_candidate=50, ransac_tolerance=h.real("tol", 0.5, 50), linear=True, minimum_matches=1))
    cal.hough_lines = [list(x) for x in hough]
    cal.hough_points = K.npmod().zeros((1, 2))
    a = coefs(h, deg, (3900, 4100))
    res = cal.fit(max_tries=0, fit_coeff=h.arr(a), progress=False, candidate_tolerance=30.0)
    cand = {}
    for p in peaks:
        ws = [w for w, o in zip(lines, offsets) if any(abs(g * p + c - o) < 20 for g, c in hough)]
        assert not any(20 <= abs(g * p + c - o) <= 40 for g, c in hough for o in offsets)
        if ws:
            cand[p] = ws
    fitted = h.list(res[0])
    h.check(len(fitted) == deg + 1 and h.all([h.eq(u, v, 1e-9) for u, v in zip(fitted, a)]), "the guess is returned")
    judge(h, cand, a, [(x, y, None) for x, y in zip(h.list(res[1]), h.list(res[2]))], cal.ransac_tolerance, "fit")
    h.check(len(h.list(res[1])) == len(h.list(res[2])), "columns have one length")
    h.reach()


def instances(tier):
    yield "direct", direct, dict(cand={100: [0, 1], 300: [1, 0]}, nlines=2), dict(cost=2)
    yield "direct", direct, dict(cand={100: [0, 1], 300: [2, 1]}, nlines=3), dict(cost=2)
    yield "direct", direct, dict(cand={100: [0], 150: [0], 300: [0, 1]}, nlines=2), dict(cost=2)
    yield "direct", direct, dict(cand={100: [1, 0], 150: [0, 1], 151: [1]}, nlines=2), dict(cost=3)
    yield "direct", direct, dict(cand={100: [2, 0, 1], 300: [0, 1, 2]}, nlines=3), dict(cost=4)
    yield "direct", direct, dict(cand={10: [0], 11: [0], 12: [0], 13: [0]}, nlines=1), dict(cost=3)
    yield "guess", guess, dict(peaks=[100.0, 300.0], offsets=[4200.0, 4600.0], hough=[(2.0, 4000.0)]), dict(cost=1)
    yield "guess", guess, dict(peaks=[100.0, 105.0, 300.0], offsets=[4200.0, 4600.0, 4612.0], hough=[(2.0, 4000.0)]), dict(cost=6)
    yield "guess", guess, dict(peaks=[305.0, 100.0, 300.0], offsets=[4610.0, 4200.0, 4600.0], hough=[(2.0, 4000.0)]), dict(cost=6)
    yield "again", twice(direct), dict(first=dict(cand={100: [0], 300: [1]}, nlines=2), second=dict(cand={100: [1], 300: [0]}, nlines=2)), dict(cost=2)
    if tier == "thorough":
        yield "direct", direct, dict(cand={100: [0, 1], 150: [1, 2], 300: [2, 0]}, nlines=3), dict(cost=30)
        yield "direct", direct, dict(cand={100: [0, 1], 150: [1, 0], 151: [1, 0]}, nlines=2), dict(cost=30)
        yield "direct", direct, dict(cand={100: [0, 1], 150: [1, 0], 400: [1, 2]}, nlines=3, deg=2), dict(cost=30)
        yield "direct", direct, dict(cand={100: [0, 1, 2, 3], 150: [3, 2, 1, 0]}, nlines=4), dict(cost=30)
        yield "direct", direct, dict(cand={10: [0], 11: [0, 1], 12: [1], 13: [0]}, nlines=2), dict(cost=30)
        yield "guess", guess, dict(peaks=[100.0, 102.0, 104.0], offsets=[4200.0, 4205.0], hough=[(2.0, 4000.0)]), dict(cost=30)
        yield "guess", guess, dict(peaks=[100.0, 300.0, 302.0], offsets=[4200.0, 4210.0, 4600.0], hough=[(2.0, 4000.0)], deg=2), dict(cost=30)
