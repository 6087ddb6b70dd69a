from vlib import cal as K
from vlib import ransac as R

PROPERTY = "C30"
BOUNDS = (
    "two calibrators built alike, one after the other; 3 peaks with one or two candidate lines each of any wavelength near the trial line, up to 2 (thorough 3) "
    "random samples, every outcome of every sample fit, every draw of the seeded stream, every integer seed, arbitrary generator state before each build; seed given "
    "first, last, alone, or before other calls of the setters; weighted and unweighted candidates; linear or polynomial candidates"
)
OUTSIDE = "random numbers drawn by others between seeding and the fit; refits with the same calibrator"
STUBS = "the random generator: after seed(s) the draws are a function of s and of the position in the stream; numpy's polyfit and rascal's robust_polyfit are arbitrary functions"


def build(h, peaks, lines, seed, order, ransac, draws=0):
    from rascal.calibrator import Calibrator

    cal = Calibrator(list(peaks), spectrum=[0.0] * 18)

    def props():
        cal.set_hough_properties(num_slopes=5, xbins=2, ybins=2, min_wavelength=4000.0, max_wavelength=4100.0, range_tolerance=500.0, linearity_tolerance=10.0)
        cal.set_ransac_properties(**dict(dict(filter_close=False, linear=True, minimum_matches=1, minimum_peak_utilisation=0.0, minimum_fit_error=0.0, ransac_tolerance=5.0, sample_size=2, top_n_candidate=50), **ransac))
        cal.set_atlas(K.make_atlas(h, lines))

    kw = dict(num_pix=18, pixel_list=list(range(18)), log_level="critical")
    if order == "first":
        cal.set_calibrator_properties(seed=seed, **kw)
        props()
    elif order == "last":
        cal.set_calibrator_properties(**kw)
        props()
        cal.set_calibrator_properties(seed=seed)
    elif order == "again":
        cal.set_calibrator_properties(seed=seed, **kw)
        props()
        cal.set_calibrator_properties(log_level="critical")
    elif order == "redrawn":
        # seeded, numbers drawn, seeded alike again: the stream starts again
        cal.set_calibrator_properties(seed=seed, **kw)
        props()
        for _ in range(draws):
            K.npmod().random.random()
        cal.set_calibrator_properties(seed=seed)
    cal.hough_lines = [[20.0, 4000.0]]
    cal.hough_points = K.npmod().zeros((1, 2))
    return cal


def alike(h, a, b):
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, (int, float, bool)) and isinstance(b, (int, float, bool)):
        return a == b or (a != a and b != b)
    if hasattr(a, "__len__") or hasattr(b, "__len__"):
        if not (hasattr(a, "__len__") and hasattr(b, "__len__")):
            return False
        a, b = h.list(a), h.list(b)
        return len(a) == len(b) and h.all([alike(h, u, v) for u, v in zip(a, b)])
    return h.same(a, b)


def twice(h, offsets, order="first", seeds=None, tries=2, limit=2, ransac=None, known=False, poly=False, deg=1, turns=0, fixed=False, narrow=False):
    seed = h.int("seed", 0, 2**32 - 1) if seeds is None else h.choice("seed", seeds)
    peaks = [5.0, 10.0, 15.0]
    spread = 4.0
    if turns:
        h.rnd.rotate = True
        h.rnd.starts = turns
    lines = [o if fixed else o + h.real("d%d" % i, -spread, spread) for i, o in enumerate(offsets)]
    for i, a in enumerate(offsets):
        for j in range(i):
            if abs(a - offsets[j]) <= 2 * spread:
                h.assume(h.any([lines[i] - lines[j] > 0.01, lines[j] - lines[i] > 0.01]))
    asked = []

    rec = R.Record(
        h, 1000,
        lambda k, d: outcome(k, "f", d),
        lambda k, d: outcome(k, "r", d),
    )

    def outcome(k, what, d):
        """of the k-th fit of a run: the same for the same data"""
        n = k - base[what]
        if n >= limit:
            raise K.Stop()
        c0 = memo.setdefault((what, n, 0), None)
        if c0 is None:
            if narrow:
                bad = h.choice("bad_%s%d" % (what, n), [False, True])
                memo[what, n, 0] = 3000.0 if bad else h.real("%s%d_0" % (what, n), 3990, 4010)
                memo[what, n, 1] = 20.0
            else:
                memo[what, n, 0] = h.real("%s%d_0" % (what, n), 3400, 4600)
                memo[what, n, 1] = h.real("%s%d_1" % (what, n), -10, 60)
        return [memo[what, n, 0], memo[what, n, 1]] + [0.0] * (d - 1)

    memo = {}
    base = {"f": 0, "r": 0}
    results = []
    before = []
    for run in range(2):
        h.rnd.reset("before%d" % run)
        cal = build(h, peaks, lines, seed, order, ransac or {}, draws=3 * run)
        if known:
            cal.set_known_pairs([20.0], [4400.0])
        base["f"], base["r"] = len(rec.fits), len(rec.robust)
        kw = dict(fit_coeff=[4000.0, 20.0]) if poly else {}
        if poly:
            cal.set_ransac_properties(linear=False)
        res, err = R.run(h, cal, 8.0, max_tries=tries, fit_deg=deg, **kw)
        fits, rob = rec.fits[base["f"]:], rec.robust[base["r"]:]
        if run:
            pf, pr = before
            h.check(len(fits) == len(pf), "the same number of samples")
            for a, b in zip(fits, pf):
                h.check(alike(h, a["x"], b["x"]), "the same peaks are drawn")
                h.check(alike(h, a["y"], b["y"]), "the same wavelengths are drawn")
            h.check(len(rob) == len(pr), "the same refits")
            for a, b in zip(rob, pr):
                h.check(h.all([alike(h, a["x"], b["x"]), alike(h, a["y"], b["y"])]), "the same data are refitted")
            r0, e0 = results[0]
            h.check((res is None) == (r0 is None), "both give a result, or neither")
            if res is not None and r0 is not None:
                h.check(len(res) == len(r0), "results of the same length")
                for a, b in zip(res, r0):
                    h.check(alike(h, a, b), "the same result")
        before = (fits, rob)
        results.append((res, err))
        h.memo = None
    h.reach()


def instances(tier):
    two = [4100.0, 4103.0, 4200.0, 4203.0, 4300.0]
    one = [4100.0, 4200.0, 4300.0]
    for order in ("first", "last", "again", "redrawn"):
        yield "twice", twice, dict(offsets=two, order=order, tries=2, limit=2, fixed=True, narrow=True, turns=3), dict(cost=4)
    yield "twice", twice, dict(offsets=two, tries=1, limit=1, fixed=True, narrow=True), dict(cost=4)
    yield "twice", twice, dict(offsets=two, tries=2, limit=2, fixed=True, narrow=True, turns=2, known=True), dict(cost=4)
    yield "twice", twice, dict(offsets=two, tries=2, limit=2, fixed=True, narrow=True, turns=2, ransac=dict(candidate_weighted=False, top_n_candidate=2, filter_close=True)), dict(cost=4)
    yield "twice", twice, dict(offsets=two, tries=2, limit=2, fixed=True, narrow=True, turns=2, poly=True), dict(cost=4)
    yield "twice", twice, dict(offsets=one, seeds=[0, 1, 12345, 2**32 - 1], tries=1, limit=1, turns=2), dict(cost=4)
    yield "twice", twice, dict(offsets=one, tries=1, limit=1), dict(cost=4)
    if tier == "thorough":
        for order in ("first", "last", "again"):
            yield "twice", twice, dict(offsets=two, order=order, tries=2, limit=3, fixed=True, narrow=True, turns=5), dict(cost=60, time_s=1500)
        yield "twice", twice, dict(offsets=two, tries=1, limit=2, fixed=True, narrow=True), dict(cost=90, time_s=1500)
        yield "twice", twice, dict(offsets=two, tries=2, limit=2, fixed=True, turns=3), dict(cost=90, time_s=1500)
