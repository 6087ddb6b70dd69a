from vlib import cal as K
from vlib import ransac as R

PROPERTY = "C35"
BOUNDS = (
    "2-4 peaks with candidate lines at any distance from one another of 0.5 to 100 pixels (thorough 5), in any order, with and without peaks that have no candidate "
    "line, one line per peak or a shared or second one, with and without known pairs"
)
OUTSIDE = "more peaks; rounding of the positions of the ten bins"
STUBS = "numpy's random choice records the probabilities it is given; numpy's histogram and digitize are modelled exactly"


def probabilities(h, n, lone=0, order=None, shared=False, known=False, size=2, close=None):
    """peaks anywhere; each has a line right on the trial line"""
    gaps = [h.real("gap%d" % i, 0.5, 100) for i in range(n - 1)]
    if close:
        for i in close:
            h.assume(gaps[i] <= 3)
    first = h.real("first", 1, 50)
    peaks = [first]
    for g in gaps:
        peaks.append(peaks[-1] + g)
    lines = [p * 20.0 + 4000.0 for p in peaks]
    tol = 2.0
    if shared:
        # a second line for the first peak
        lines.append(lines[0] + 1.0)
    # peaks that match nothing lie beyond the others
    extra = [peaks[-1] + 10.0 * (i + 1) for i in range(lone)]
    everything = peaks + extra
    if order:
        everything = [everything[i] for i in order]
    cal = K.make(h, everything, lines, num_pix=400, spectrum=[0.0] * 400, ransac=dict(sample_size=size, top_n_candidate=5, candidate_weighted=False, filter_close=False, ransac_tolerance=5.0), candidate_tolerance=tol)
    cal.hough_lines = [[20.0, 4000.0]]
    cal.hough_points = K.npmod().zeros((1, 2))
    if known:
        cal.set_known_pairs([5.0], [4100.0])
    draws = []

    def drawn(a, sz, replace, p):
        if sz is not None and not draws:
            draws.append((h.list(a), int(sz), replace, None if p is None else h.list(p)))
            raise K.Stop()

    h.rnd.on_choice = drawn
    try:
        cal.fit(max_tries=3, fit_deg=1, candidate_tolerance=tol, progress=False)
    except K.Stop:
        pass
    h.check(len(draws) == 1, "peaks are drawn")
    if not draws:
        return
    a, sz, replace, prob = draws[0]
    h.check(len(a) == n, "drawn from the candidate peaks")
    h.check(not replace, "drawn without repetition")
    h.check(prob is not None, "drawn with probabilities")
    if prob is None or len(a) != n:
        return
    h.check(len(prob) == n, "a probability for each peak")
    if len(prob) != n:
        return
    for p in peaks:
        h.check(h.any([h.same(p, q) for q in a]), "every candidate peak can be drawn")
    h.check(h.all([p > 0 for p in prob]), "probabilities are positive")
    h.check(h.eq(sum(prob, 0.0), 1.0, 1e-9), "probabilities sum to one")
    lo, span = peaks[0], peaks[-1] - peaks[0]

    # the tenth a peak is in: the last one includes its upper end
    edges = [lo + span * k / 10 for k in range(1, 10)]
    for q in a:
        h.assume(h.all([h.not_(h.eq(q, e, 1e-6)) for e in edges]))
    past = [h.count([q > e for e in edges]) for q in a]
    crowd = [h.count([h.same(u, v) for v in past]) for u in past]
    for i in range(n):
        for j in range(i):
            h.check(h.eq(prob[i] * crowd[i], prob[j] * crowd[j], 1e-9), "inversely proportional to the peaks in the same tenth")
    h.reach()


def instances(tier):
    yield "probabilities", probabilities, dict(n=3), dict(cost=3)
    yield "probabilities", probabilities, dict(n=3, order=[2, 0, 1]), dict(cost=3)
    yield "probabilities", probabilities, dict(n=3, lone=2, order=[4, 1, 0, 3, 2]), dict(cost=3)
    yield "probabilities", probabilities, dict(n=3, shared=True), dict(cost=3)
    yield "probabilities", probabilities, dict(n=3, known=True), dict(cost=3)
    yield "probabilities", probabilities, dict(n=4), dict(cost=9)
    yield "probabilities", probabilities, dict(n=5, close=(0, 1), size=3), dict(cost=9)
    if tier == "thorough":
        yield "probabilities", probabilities, dict(n=5), dict(cost=60)
        yield "probabilities", probabilities, dict(n=5, lone=1, order=[3, 1, 5, 0, 2, 4], size=4), dict(cost=60)
        yield "probabilities", probabilities, dict(n=6, close=(0, 1, 4), size=3), dict(cost=40)
