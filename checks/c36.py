import itertools

from vlib import ransac as R

PROPERTY = "C36"
BOUNDS = "3-4 peaks with one or two candidate lines each, 3-5 lines of any wavelength near listed ones, every real ransac tolerance; brute force (every combination) and random samples (one), every outcome of a sample fit"
OUTSIDE = "separations of exactly three ransac tolerances; draws are taken in turns"
STUBS = "numpy's polyfit and rascal's robust_polyfit return arbitrary coefficients"


def close(h, peaks, offsets, spread=4.0, brute=True, limit=200, good=False, tries=1, hi=8, on=True, free=None):
    R.rotate(h)
    tol_r = h.real("tol", 0.1, hi)
    rec = R.Record(
        h, limit,
        (lambda k, d: [h.real("f%d_0" % k, 3990, 4010), 20.0] + [0.0] * (d - 1)) if good else (lambda k, d: [4000.0, -1.0] + [0.0] * (d - 1)),
        lambda k, d: [4000.0, 20.0] + [0.0] * (d - 1),
        stop="stop",
    )
    own = None if free is None else [o + h.real("d%d" % i, -spread, spread) if i in free else o for i, o in enumerate(offsets)]
    cal, lines, cand, tol = R.calibrator(h, peaks, offsets, ((20.0, 4000.0),), spread, lines=own, ransac=dict(ransac_tolerance=tol_r, sample_size=2, filter_close=on))
    used = sorted({i for ws in cand.values() for i in ws})
    gap = {}
    for a, b in itertools.combinations(used, 2):
        d = abs(lines[a] - lines[b])
        h.assume(h.not_(h.eq(d, 3 * tol_r, 1e-6)))
        h.assume(d > 0.01)
        gap[a, b] = gap[b, a] = d < 3 * tol_r
    res, err = R.run(h, cal, tol, max_tries=tries, brute_force=brute, fit_deg=1)
    drawn = [(u, v) for f in rec.fits for u, v in zip(f["x"], f["y"])]
    if res is not None:
        drawn += list(zip(h.list(res[1]), h.list(res[2])))
    seen = {(p, i): h.any([h.all([h.same(u, p), h.same(v, lines[i])]) for u, v in drawn]) for p, ws in cand.items() for i in ws}
    there = {i: h.any([seen[p, i] for p in cand if i in cand[p]]) for i in used}
    for u, v in drawn:
        h.check(h.any([h.all([h.same(u, p), h.same(v, lines[i])]) for p, ws in cand.items() for i in ws]), "only candidate pairs are used")
    if on:
        for a, b in itertools.combinations(used, 2):
            h.check(h.not_(h.all([there[a], there[b], gap[a, b]])), "no two lines are closer than three tolerances")
    if brute and not good:
        for a in used:
            alone = h.all([h.not_(gap[a, b]) for b in used if b != a] if on else [True])
            h.check(h.implies(alone, h.all([seen[p, a] for p in cand if a in cand[p]])), "a line without close neighbours keeps its pairs")
            # dropping a line leaves one of its run
            h.check(h.any([there[a]] + [h.all([gap[a, b]]) for b in used if b != a]), "a dropped line has a close neighbour")
            for p in cand:
                if a in cand[p]:
                    h.check(h.implies(there[a], seen[p, a]), "a kept line keeps all its pairs")
        near = dict(there)
        for _ in used:
            near = {a: h.any([near[a]] + [h.all([gap[a, b], near[b]]) for b in used if b != a]) if on else near[a] for a in used}
        h.check(h.all(list(near.values())), "of a run of close lines one is kept")
    h.reach()


def instances(tier):
    p3, o3 = [2, 5, 9], [4040.0, 4100.0, 4180.0]
    yield "close", close, dict(peaks=p3, offsets=o3), dict(cost=2)
    yield "close", close, dict(peaks=[2, 5, 9], offsets=[4040.0, 4098.0, 4102.0, 4180.0]), dict(cost=4)
    yield "close", close, dict(peaks=[2, 5, 9], offsets=[4040.0, 4098.0, 4102.0, 4180.0], on=False), dict(cost=4)
    yield "close", close, dict(peaks=[2, 5, 5.2], offsets=[4040.0, 4098.0, 4106.0], spread=6.0), dict(cost=4)
    # lines of different peaks: closer than three tolerances only when these are large
    yield "close", close, dict(peaks=[2, 3.5, 5, 9], offsets=[4040.0, 4070.0, 4100.0, 4180.0], hi=12), dict(cost=4)
    yield "close", close, dict(peaks=[2, 5, 9], offsets=[4040.0, 4098.0, 4102.0, 4180.0], brute=False, limit=1, good=True, free=[1]), dict(cost=4)
    yield "close", close, dict(peaks=[2, 5, 5.2], offsets=[4040.0, 4098.0, 4106.0], spread=6.0, brute=False, limit=1, good=True, free=[]), dict(cost=4)
    if tier == "thorough":
        yield "close", close, dict(peaks=[2, 5, 9], offsets=[4040.0, 4098.0, 4102.0, 4178.0, 4182.0]), dict(cost=40)
        yield "close", close, dict(peaks=[2, 5, 9], offsets=[4040.0, 4098.0, 4100.0, 4102.0, 4180.0]), dict(cost=40)
        yield "close", close, dict(peaks=[2, 3.5, 5, 9], offsets=[4040.0, 4070.0, 4100.0, 4180.0], hi=30), dict(cost=40)
