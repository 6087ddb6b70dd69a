import itertools

from vlib import cal as K
from vlib import ransac as R

PROPERTY = "C32"
BOUNDS = "2-5 peaks, 1-2 candidate lines per peak, up to 10 combinations (thorough 20), sample size 2-5, degree 1-2; every real wavelength, every outcome of the sample fits that does not end the search (turned down, or accepted with a peak left over)"
OUTSIDE = "outcomes that match every peak: the search may end there; more than 20 combinations"
STUBS = "numpy's polyfit and rascal's robust_polyfit return arbitrary coefficients"


def combinations(h, peaks, offsets, size, deg=1, spread=4.0, accept=False, tries=1):
    """each combination of candidate pairs is fitted once"""
    lone = peaks + [3.3] if accept else peaks
    rec = R.Record(
        h, 200,
        (lambda k, d: [h.real("f%d_0" % k, 3990, 4010) if k < 2 else 4000.0, 20.0] + [0.0] * (d - 1)) if accept else (lambda k, d: [h.real("f%d_0" % k, 3900, 4100), h.real("f%d_1" % k, -10, 0)] + [0.0] * (d - 1)),
        lambda k, d: [4000.0 + k, 20.0] + [0.0] * (d - 1),
        stop="stop",
    )
    # (a lone peak whose line is off the curve keeps the search going)
    offs = offsets + [4088.0] if accept else offsets
    hough = ((20.0, 4000.0), (20.0, 4022.0)) if accept else ((20.0, 4000.0),)
    cal, lines, cand, tol = R.calibrator(h, lone, offs, hough, spread, ransac=dict(sample_size=size))
    R.run(h, cal, tol, max_tries=tries, brute_force=True, fit_deg=deg)
    pairs = [(p, lines[i]) for p, ws in cand.items() for i in ws]
    n = min(max(size, deg + 1), len(cand), len(lines))
    expect = list(itertools.combinations(range(len(pairs)), n))
    h.check(len(rec.fits) == len(expect), "as many sample fits as combinations")
    for f in rec.fits:
        h.check(len(f["x"]) == len(f["y"]) == n, "samples have the requested size")
        h.check(f["deg"] == deg, "the requested degree is fitted")

    def is_combo(f, c):
        if len(f["x"]) != n or len(f["y"]) != n:
            return False
        got = list(zip(f["x"], f["y"]))
        return h.all([h.any([h.all([h.same(u, pairs[i][0]), h.same(v, pairs[i][1])]) for u, v in got]) for i in c])

    for c in expect:
        h.check(h.count([is_combo(f, c) for f in rec.fits]) == 1, "each combination is fitted once")
    h.reach()


def instances(tier):
    p3, o3 = [2, 5, 9], [4040.0, 4100.0, 4180.0]
    p4, o4 = [2, 5, 9, 14], [4040.0, 4100.0, 4180.0, 4280.0]
    p5, o5 = [2, 5, 9, 14, 17], [4040.0, 4100.0, 4180.0, 4280.0, 4340.0]
    yield "combinations", combinations, dict(peaks=p3, offsets=o3, size=2), dict(cost=2)
    yield "combinations", combinations, dict(peaks=p3, offsets=o3, size=3), dict(cost=2)
    yield "combinations", combinations, dict(peaks=p3, offsets=o3, size=1), dict(cost=2)
    yield "combinations", combinations, dict(peaks=p4, offsets=o4, size=3), dict(cost=2)
    yield "combinations", combinations, dict(peaks=p4, offsets=o4, size=2, deg=2), dict(cost=2)
    yield "combinations", combinations, dict(peaks=p4, offsets=o4, size=9, deg=2), dict(cost=2)
    yield "combinations", combinations, dict(peaks=p5, offsets=o5, size=2), dict(cost=4)
    yield "combinations", combinations, dict(peaks=p5, offsets=o5, size=4, tries=0), dict(cost=4)
    yield "combinations", combinations, dict(peaks=[2, 5, 9], offsets=[4040.0, 4098.0, 4102.0, 4180.0], size=2), dict(cost=4)
    yield "combinations", combinations, dict(peaks=[2, 5, 5.2], offsets=[4040.0, 4098.0, 4106.0], size=2, spread=6.0), dict(cost=4)
    if tier == "thorough":
        yield "combinations", combinations, dict(peaks=p5 + [1], offsets=o5 + [4020.0], size=3), dict(cost=9)
        yield "combinations", combinations, dict(peaks=[2, 5, 5.2, 9], offsets=[4040.0, 4098.0, 4106.0, 4180.0], size=3, deg=2, spread=6.0), dict(cost=9)
    yield "combinations", combinations, dict(peaks=p3, offsets=o3, size=2, accept=True, spread=2.0), dict(cost=9)
