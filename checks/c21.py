import numpy as np

from vlib import cal as K
from vlib import ransac as R

PROPERTY = "C21"
BOUNDS = "0-2 known pairs in every argument form, histories of up to 3 accepted or rejected calls; 3-4 peaks with 1-2 candidate lines, sample size 2-3, every draw of the first sample (thorough: of the first two), random and brute force; all three fit types"
OUTSIDE = "more samples; draws that repeat a taken line more than once per sample; repeated known pixels"
STUBS = "numpy's polynomial fits record their data; draws are arbitrary"


def record(h, limit, increasing=False):
    """all three kinds of sample fit record their data"""
    log = []

    def fit(x, y, deg, *a, **k):
        log.append((h.list(np.asarray(x) if not isinstance(x, np.ndarray) else x), h.list(y) if isinstance(y, np.ndarray) else list(y), int(deg)))
        if len(log) >= limit:
            raise K.Stop()
        # not increasing: drawn again
        return h.arr([4000.0, -1.0] + [0.0] * (int(deg) - 1))

    for f in (np.polynomial.polynomial.polyfit, np.polynomial.legendre.legfit, np.polynomial.chebyshev.chebfit):
        h.stub(f, fit)
    return log


def form(h, how, vals):
    if how == "list":
        return list(vals)
    if how == "tuple":
        return tuple(vals)
    if how == "number":
        return vals[0]
    return h.arr(vals)


def samples(h, peaks, offsets, known=2, how="list", size=2, limit=1, brute=False, kind="poly", spread=4.0, deg=1, order=False, guess=None, maybe=False):
    cal, lines, cand, tol = R.calibrator(h, peaks, offsets, ((20.0, 4000.0),), spread, ransac=dict(sample_size=size))
    kx, kw = h.reals("kx", known, -100, 2000), h.reals("kw", known, 3000, 9000)
    log = record(h, limit)
    # one redraw of a line per sample; more are outside the bounds
    h.rnd.max_picks = limit * (2 * max(min(size, len(lines)), (guess or deg) + 1) + 1)
    if known:
        cal.set_known_pairs(form(h, how, kx), form(h, how, kw))
    if order:
        # later configuration does not lose the pairs
        cal.set_ransac_properties(sample_size=size)
        cal.set_hough_properties(num_slopes=7)
    if guess:
        # the degree is that of the guess, and a sample has to settle it
        more = dict(fit_coeff=h.arr([9e9] + [h.real("g%d" % i, -1, 1) for i in range(guess)]))
    else:
        more = {}
    R.run(h, cal, tol, max_tries=limit, brute_force=brute, fit_deg=deg, fit_type=kind, **more)
    # peaks with the same only line cannot be drawn together
    h.check(maybe or len(log) > 0, "samples are drawn")
    deg = guess or deg
    # no more than there are lines
    size = max(min(size, len(lines)), deg + 1)
    for n, (x, y, d) in enumerate(log):
        h.check(len(x) == len(y) == size + known, "a sample of the requested size and the known pairs")
        if not len(x) == len(y) == size + known:
            continue
        h.check(d == deg, "the requested degree is fitted")
        pool = list(zip(x, y))
        # the known pairs, wherever they are
        is_drawn = [h.any([h.all([h.same(u, p), h.same(v, lines[j])]) for p, ws in cand.items() for j in ws]) for u, v in pool]
        for i in range(known):
            h.check(h.any([h.all([h.same(u, kx[i]), h.same(v, kw[i])]) for u, v in pool]), "every known pair takes part in sample %d" % n)
        h.check(h.count(is_drawn) >= size, "the rest are candidate pairs")
        drawn = pool[:size] if known == 0 or not bool(h.any([h.all([h.same(u, a), h.same(v, b)]) for (u, v) in pool[:size] for a, b in zip(kx, kw)])) else None
        if drawn is not None and not brute:
            for i in range(len(drawn)):
                for j in range(i):
                    h.check(h.not_(h.same(drawn[i][0], drawn[j][0])), "no peak twice in a sample")
                    h.check(h.not_(h.same(drawn[i][1], drawn[j][1])), "no line twice in a sample")
    h.reach()


BAD = {
    "lengths": lambda x, w: (x, w[:1]),
    "nan pixel": lambda x, w: ([x[0], float("nan")], w),
    "nan wavelength": lambda x, w: (x, [float("nan"), w[1]]),
    "one more": lambda x, w: (x + x[:1], w),
    "words": lambda x, w: (["a", "b"], w),
    "none": lambda x, w: ([None, x[0]], w),
}


def history(h, steps):
    """accepted calls replace the pairs, rejected calls leave them"""
    peaks, offsets = [2, 5, 9], [4040.0, 4100.0, 4180.0]
    cal, lines, cand, tol = R.calibrator(h, peaks, offsets, ((20.0, 4000.0),), 0.0, lines=offsets)
    R.rotate(h)
    now = []
    for k, s in enumerate(steps):
        if s == "empty":
            cal.set_known_pairs()
            now = []
        elif s == "one":
            x, w = h.real("x%d" % k, -100, 2000), h.real("w%d" % k, 3000, 9000)
            cal.set_known_pairs(x, w)
            now = [(x, w)]
        elif s == "two":
            x, w = h.reals("x%d" % k, 2, -100, 2000), h.reals("w%d" % k, 2, 3000, 9000)
            cal.set_known_pairs(h.arr(x), list(w))
            now = list(zip(x, w))
        else:
            x, w = BAD[s](h.reals("x%d" % k, 2, 0, 2000), h.reals("w%d" % k, 2, 3000, 9000))
            try:
                cal.set_known_pairs(x, w)
                h.check(False, "%s is rejected" % s)
            except (AssertionError, ValueError, TypeError):
                pass
    log = record(h, 1)
    R.run(h, cal, tol, max_tries=1, fit_deg=1)
    h.check(len(log) == 1, "a sample is drawn")
    for x, y, d in log:
        h.check(len(x) == len(y) == 2 + len(now), "the sample and the pairs accepted last")
        for u, v in now:
            h.check(h.any([h.all([h.same(a, u), h.same(b, v)]) for a, b in zip(x, y)]), "the pairs accepted last take part")
    h.reach()


def instances(tier):
    p3, o3 = [2, 5, 9], [4040.0, 4100.0, 4180.0]
    p4, o4 = [2, 5, 9, 14], [4040.0, 4100.0, 4180.0, 4280.0]
    double = dict(peaks=[2, 5, 9], offsets=[4040.0, 4098.0, 4102.0, 4180.0])
    shared = dict(peaks=[2, 5, 5.2], offsets=[4040.0, 4098.0, 4106.0], spread=6.0)
    yield "samples", samples, dict(peaks=p3, offsets=o3, known=2), dict(cost=2)
    yield "samples", samples, dict(peaks=p3, offsets=o3, known=1, how="number"), dict(cost=2)
    yield "samples", samples, dict(peaks=p4, offsets=o4, known=2, how="array", order=True), dict(cost=2)
    yield "samples", samples, dict(peaks=p4, offsets=o4, known=1, how="tuple", size=3, deg=2), dict(cost=4)
    yield "samples", samples, dict(peaks=p3, offsets=o3, known=0), dict(cost=2)
    yield "samples", samples, dict(known=0, **double), dict(cost=4)
    yield "samples", samples, dict(known=1, **shared), dict(cost=4)
    same = dict(peaks=[2, 5, 5.2], offsets=[4040.0, 4102.0], maybe=True)
    yield "samples", samples, dict(known=1, **same), dict(cost=4)
    yield "samples", samples, dict(known=0, **same), dict(cost=4)
    yield "samples", samples, dict(peaks=p3, offsets=o3, known=2, brute=True, limit=3), dict(cost=2)
    yield "samples", samples, dict(peaks=p4, offsets=o4, known=1, guess=2), dict(cost=4)
    yield "samples", samples, dict(peaks=p4, offsets=o4, known=0, deg=2, size=2), dict(cost=4)
    yield "samples", samples, dict(peaks=p3, offsets=o3, known=1, deg=2, guess=1), dict(cost=4)
    yield "samples", samples, dict(peaks=p3, offsets=o3, known=1, size=5), dict(cost=4)
    yield "samples", samples, dict(peaks=p4, offsets=o4[:3], known=0, size=7), dict(cost=4)
    for kind in ("legendre", "chebyshev"):
        yield "samples", samples, dict(peaks=p3, offsets=o3, known=2, kind=kind), dict(cost=2)
    for bad in BAD:
        yield "history", history, dict(steps=["two", bad]), dict(cost=1)
        yield "history", history, dict(steps=[bad, "one", bad]), dict(cost=1)
    for s in (["two", "one"], ["one", "empty"], ["two", "empty", "one"], ["empty"], ["one", "two", "lengths"]):
        yield "history", history, dict(steps=s), dict(cost=1)
    if tier == "thorough":
        yield "samples", samples, dict(peaks=p3, offsets=o3, known=2, limit=2), dict(cost=9)
        yield "samples", samples, dict(peaks=p4, offsets=o4, known=1, limit=2), dict(cost=9)
        yield "samples", samples, dict(known=1, limit=2, **double), dict(cost=9)
        yield "samples", samples, dict(known=1, limit=2, **shared), dict(cost=9)
        yield "samples", samples, dict(known=2, size=3, deg=2, peaks=[2, 5, 5.2, 9], offsets=[4040.0, 4098.0, 4106.0, 4180.0], spread=6.0), dict(cost=9)
