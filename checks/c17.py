import itertools

import numpy as np

from vlib import cal as K
from vlib.again import twice

PROPERTY = "C17"
BOUNDS = (
    "up to 3 candidate sets of up to 3 candidates over 1-3 peaks and 2-3 lines, top 1-3, every real weight in [0, 1], weighted and unweighted; "
    "wavelengths that may coincide; candidates found by fit() itself for 1-2 peaks, 2-3 lines and 1-2 trial lines with every slope and intercept"
)
OUTSIDE = "which of equally weighted lines are kept"
STUBS = "exp is any strictly increasing positive function; the sampling part of fit() is not run"

PEAKS = [100.0, 350.0, 800.0]


def judge(h, cands, peaks, waves, top, weighted, label):
    """cands: list of (peak, wavelength, weight); peaks are concrete"""
    peaks, waves = h.list(peaks), h.list(waves)
    h.check(len(peaks) == len(waves), label + ": as many peaks as wavelengths")
    if len(peaks) != len(waves):
        return
    for p in sorted(set(c[0] for c in cands)):
        mine = [c for c in cands if c[0] == p]
        total = [sum(h.ite(h.eq(o[1], c[1], 1e-9), (o[2] if weighted else 1.0), 0.0) for o in mine) for c in mine]
        first = [h.not_(h.any([h.eq(mine[j][1], mine[i][1], 1e-9) for j in range(i)])) for i in range(len(mine))]
        got = [w for q, w in zip(peaks, waves) if bool(h.eq(q, p, 1e-9))]
        n = h.count(first)
        h.check(h.any([h.all([n >= top, len(got) == top]), h.all([n < top, n == len(got)])]), label + ": every peak has its top lines")
        kept = [h.any([h.eq(g, c[1], 1e-9) for g in got]) for c in mine]
        for i, g in enumerate(got):
            h.check(h.any([h.eq(g, c[1], 1e-9) for c in mine]), label + ": only candidates of the peak")
            for j in range(i):
                h.check(h.not_(h.eq(g, got[j], 1e-9)), label + ": no line twice for a peak")
        for i, j in itertools.permutations(range(len(mine)), 2):
            h.check(h.implies(h.all([kept[i], h.not_(kept[j])]), total[i] >= total[j] - 1e-9), label + ": the heavier lines are kept")
    h.check(h.all([h.any([h.eq(q, c[0], 1e-9) for c in cands]) for q in peaks]), label + ": only candidate peaks")


LINES = [4100.0, 5000.0, 5000.5]


def direct(h, sets, top, weighted, symbolic_lines=False):
    cal = K.make(h, PEAKS, [5000.0])
    f = K.private(h, cal, "_get_most_common_candidates")
    lines = h.reals("w", 3, 3000, 9000) if symbolic_lines else LINES
    if symbolic_lines:
        for a, b in itertools.combinations(lines, 2):
            h.assume(h.any([a == b, a - b > 0.01, b - a > 0.01]))
    cands, flat = [], []
    for s in sets:
        cs = [(PEAKS[p], lines[w], h.real("k%d" % (len(flat) + i), 0, 1)) for i, (p, w) in enumerate(s)]
        flat += cs
        cands.append((np.array([c[0] for c in cs], dtype=float), h.arr([c[1] for c in cs]), h.arr([c[2] for c in cs])))
    peaks, waves = f(cands, top_n_candidate=top, weighted=weighted)
    judge(h, flat, peaks, waves, top, weighted, "merged")
    h.reach()


def whole(h, npeaks, lines, nhough, top, weighted):
    """as fit() does it, from the trial lines"""
    cal = K.make(h, PEAKS[:npeaks], lines, hough=dict(range_tolerance=300, linearity_tolerance=50),
        ransac=dict(filter_close=False, candidate_weighted=weighted, top_n_candidate=top, linear=True))
    cal.hough_lines = [list(x) for x in zip(h.reals("g", nhough, 0, 5), h.reals("c", nhough, 3000, 6000))]
    cal.hough_points = K.npmod().zeros((1, 2))

    def nofit(*a, **k):
        raise K.Stop()

    h.stub(np.polynomial.polynomial.polyfit, nofit)
    try:
        cal.fit(max_tries=1, progress=False, fit_deg=20, candidate_tolerance=60.0)
    except (AssertionError, K.Stop):
        pass
    flat = [c for s in cal.candidates for c in zip(*[h.list(col) for col in s])]
    judge(h, flat, cal.candidate_peak, cal.candidate_arc, top, weighted, "fit")
    h.reach()


def instances(tier):
    pats = [
        [[(0, 0), (0, 1)], [(0, 1)], [(0, 2)]],
        [[(1, 2), (0, 1)], [(0, 2), (1, 1)], [(1, 2)]],
        [[(2, 0), (1, 0), (0, 0)], [(2, 0), (2, 1)]],
        [[(0, 0), (0, 1), (0, 2)], []],
        [[(0, 2), (1, 0)], [(0, 0), (1, 2)], [(0, 2), (1, 1)]],
    ]
    for pat in pats:
        for top in (1, 2, 3):
            for weighted in (True, False):
                if not weighted and top == 3:
                    continue
                yield "direct", direct, dict(sets=pat, top=top, weighted=weighted), dict(cost=2)
    for weighted in (True, False):
        yield "direct", direct, dict(sets=[[(0, 0), (0, 1)], [(0, 2)]], top=1, weighted=weighted, symbolic_lines=True), dict(cost=4)
        yield "direct", direct, dict(sets=[[(0, 0), (1, 1)], [(0, 2)]], top=2, weighted=weighted, symbolic_lines=True), dict(cost=4)
        yield "whole", whole, dict(npeaks=1, lines=[5000.0, 5050.0], nhough=2, top=1, weighted=weighted), dict(cost=5)
    yield "whole", whole, dict(npeaks=1, lines=[5000.0, 5100.0, 5050.0], nhough=1, top=2, weighted=True), dict(cost=5)
    yield "whole", whole, dict(npeaks=2, lines=[5000.0, 5050.0], nhough=1, top=1, weighted=False), dict(cost=5)
    yield "again", twice(direct), dict(first=dict(sets=[[(0, 0), (0, 1)]], top=1, weighted=True), second=dict(sets=[[(0, 0), (0, 1)], [(0, 2)]], top=1, weighted=False)), dict(cost=3)
    yield "again", twice(direct), dict(first=dict(sets=[[(0, 0), (0, 1)], [(0, 2)]], top=2, weighted=False), second=dict(sets=[[(0, 0), (0, 1)], [(0, 2)]], top=1, weighted=True)), dict(cost=3)
    if tier == "thorough":
        for pat in itertools.product([[(0, 0), (0, 1)], [(0, 1), (1, 1)], [(1, 0), (0, 2)]], [[(0, 1)], [(1, 1), (0, 0)]], [[(0, 2), (1, 2)], [(0, 0)], [(1, 0)]]):
            for top in (1, 2):
                for weighted in (True, False):
                    yield "direct", direct, dict(sets=list(pat), top=top, weighted=weighted), dict(cost=3)
        for top in (1, 2):
            yield "whole", whole, dict(npeaks=1, lines=[5000.0, 5050.0, 5020.0], nhough=2, top=top, weighted=True), dict(cost=30)
            yield "whole", whole, dict(npeaks=2, lines=[5000.0, 5050.0], nhough=2, top=top, weighted=False), dict(cost=30)
            yield "direct", direct, dict(sets=[[(0, 0), (0, 1)], [(0, 2), (0, 0)]], top=top, weighted=True, symbolic_lines=True), dict(cost=30)
