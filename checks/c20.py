import scipy.interpolate

from vlib import ransac as R

PROPERTY = "C20"
BOUNDS = (
    "3-4 peaks with one or two candidate lines each, up to 2 accepted or rejected sample fits at random and 3 by brute force (thorough 3 and 4), with every sample "
    "fit (degree 1, some instances 2), every real wavelength, ransac tolerance 5 or any; Hough density weights from {1, 3} per sample or none; a guess with any intercept or none; known pairs or none"
)
OUTSIDE = "ties of cost; errors of exactly the tolerance; equally near lines or peaks"
STUBS = "numpy's polyfit and rascal's robust_polyfit return arbitrary coefficients; scipy's RectBivariateSpline returns chosen weights and records where it is asked"


def best(h, peaks, offsets, limit, tries=1, brute=False, size=2, weights=False, matches=1, sym=(), known=False, deg=1, ranges=None, spread=4.0, fixed=False, pixels=None, flat=False, kind="poly", guess=False, heavy=2.0):
    R.rotate(h)

    def robust(k, d):
        return [4000.0 + k, 20.0 + k] + [0.0] * (d - 1)

    tol_r = h.real("tol", 0.5, 20) if "tol" in sym else 5.0
    rec = R.Record(
        h, limit,
        lambda k, d: [h.real("f%d_0" % k, 3900, 4100), h.real("f%d_1" % k, *(ranges or {}).get(k, (-10, 60)))] + [0.0 if flat else h.real("f%d_2" % k, -0.5, 0.5)] * (d - 1),
        lambda k, d: robust(len(rec.fits) - 1, d),
    )
    use = h.choice("use", [0.5, 0.75, 1.0]) if "use" in sym else 0.0
    minerr = h.real("minerr", 0, 3) if "error" in sym else 0.0
    pix = [float(x) for x in pixels or range(18)]
    npix = len(pix)
    cal, lines, cand, tol = R.calibrator(h, peaks, offsets, ((20.0, 4000.0),), spread, lines=list(offsets) if fixed else None, ransac=dict(ransac_tolerance=tol_r, minimum_matches=matches, sample_size=size, hough_weight=heavy, minimum_peak_utilisation=use, minimum_fit_error=minerr))
    if pixels:
        cal.set_calibrator_properties(pixel_list=list(pixels))
    spline = None
    if weights or heavy == float("inf"):
        spline = R.Spline(h, lambda k: h.choice("weight%d" % k, [1.0, 3.0]), npix)
        h.stub(scipy.interpolate.RectBivariateSpline, spline)
        cal.ht.xedges, cal.ht.yedges, cal.ht.hist = R.np.array([5.0, 15.0, 25.0]), R.np.array([3900.0, 4000.0, 4100.0]), R.np.array([[1.0, 2.0], [3.0, 4.0]])
    if known:
        cal.set_known_pairs([20.0], [4400.0])
    # a try ends with its acceptable sample
    def strict(k):
        """what the user asks for beyond the matches"""
        inl = inliers(k)
        n = h.count([i for p, w, i in inl])
        out = [n >= use * len(peaks)]
        if "error" in sym:
            sq = 0.0
            for p, w, i in inl:
                d = abs(h.poly(robust(k, deg), p) - w)
                d = h.ite(d > tol_r, tol_r, d)
                sq = sq + h.ite(i, d * d, 0.0)
            h.assume(h.not_(h.eq(sq, minerr * minerr * n, 1e-3)))
            out.append(sq >= minerr * minerr * n)
        return h.all(out)

    def inliers(k):
        return [(p, lines[i], h.all([wins, e < tol_r])) for p, i, chosen, wins, e in R.match(h, cand, lines, rec.fits[k]["coef"])]

    rec.judge = lambda: h.count([h.all([R.acceptable(h, cand, lines, f, peaks, deg, tol_r, matches), strict(k)]) for k, f in enumerate(rec.fits)]) >= tries
    g = [h.real("g0", 3960, 4040), 20.0] + [0.0] * (deg - 1) if guess else None
    res, err = R.run(h, cal, tol, max_tries=tries, brute_force=brute, fit_type=kind, **(dict(fit_coeff=list(g)) if guess else dict(fit_deg=deg)))
    if not weights and spline:
        h.check(not spline.calls, "no density is read")
    good, cost, used = [], [], []

    def price(m):
        """clipped errors per degree of freedom"""
        total = h.count([wins for p, i, chosen, wins, e in m])
        clipped = sum(h.ite(wins, h.ite(e > tol_r, tol_r, e), 0.0) for p, i, chosen, wins, e in m)
        each = 1e9
        for v in range(deg + 1, len(peaks) + 1):
            each = h.ite(total == v, clipped / (v - deg), each)
        return each

    gcost = None
    if guess:
        R.no_ties(h, cand, lines, g)
        gm = R.match(h, cand, lines, g)
        for p, i, chosen, wins, e in gm:
            h.assume(h.not_(h.eq(e, tol_r, 1e-6)))
        gcost = price(gm)
    for k, f in enumerate(rec.fits):
        c = f["coef"]
        R.no_ties(h, cand, lines, c)
        m = R.match(h, cand, lines, c)
        inl = [(p, lines[i], h.all([wins, e < tol_r])) for p, i, chosen, wins, e in m]
        n = h.count([i for p, w, i in inl])
        for p, i, chosen, wins, e in m:
            h.assume(h.not_(h.eq(e, tol_r, 1e-6)))
        good.append(h.all([c[0] >= 3500, c[0] <= 4500, R.increasing(h, c, peaks), n >= deg + 1, n >= matches, strict(k)]))
        used.append(inl)
        cost.append(price(m))
    if weights:
        # the k-th weight belongs to the k-th curve that was looked up
        h.check(len(spline.calls) <= len(rec.fits) + (1 if guess else 0), "one density per sample")
        look = {}
        i = 0
        curve = lambda gx, gy, c: h.all([len(gx) == npix, len(gy) == npix]
            + [h.eq(v, sum(j * u * x ** (j - 1) for j, u in enumerate(c) if j), 1e-6) for v, x in zip(gx, pix)]
            + [h.eq(v, sum((1 - j) * u * x**j for j, u in enumerate(c)), 1e-5) for v, x in zip(gy, pix)])
        if guess and bool(gcost < 1e8):
            h.check(len(spline.calls) > 0 and curve(spline.calls[0][0], spline.calls[0][1], g), "the density of the guess is read")
            if not spline.calls:
                return
            gcost = gcost / (heavy * spline.calls[0][2])
            i = 1
        for k, f in enumerate(rec.fits):
            if i < len(spline.calls):
                gx, gy, w = spline.calls[i]
                c = f["coef"]
                if bool(h.all([c[0] >= 3500, c[0] <= 4500, R.increasing(h, c, peaks)])):
                    h.check(curve(gx, gy, c), "the density is read at the curve's slopes and intercepts")
                    look[k] = w
                    i += 1
        h.check(i == len(spline.calls), "densities are read for acceptable curves only")
        for made in spline.made:
            x, y, z = (h.list(v) for v in made)
            h.check(x == [10.0, 20.0] and y == [3950.0, 4050.0] and z == [1.0, 2.0, 3.0, 4.0], "the density sits at the bin centres")
        for k in range(len(cost)):
            if k in look:
                cost[k] = cost[k] / (heavy * look[k])
            elif not bool(good[k]):
                cost[k] = 1e9
            else:
                h.check(False, "the density of every acceptable sample is read")
                return
    if res is None:
        h.check(h.not_(h.any(good)), "an acceptable sample is not thrown away")
        h.reach()
        return
    coef = h.list(res[0])
    ok = []
    for j, r in enumerate(rec.robust):
        s = r["sample"]
        inl = used[s]
        xs, ys = h.list(res[1]), h.list(res[2])
        matches_ok = [h.any([h.all([i, h.same(x, p), h.same(y, w)]) for p, w, i in inl]) for x, y in zip(xs, ys)]
        best_ok = [h.implies(good[k], cost[s] <= cost[k] + 1e-7) for k in range(len(cost))]
        # the reported numbers belong to this solution
        d = [abs(h.poly(r["coef"], x) - y) for x, y in zip(xs, ys)]
        d = [h.ite(v > tol_r, tol_r, v) for v in d]
        num = [h.eq(abs(u), v, 1e-6) for u, v in zip(h.list(res[4]), d)] if len(h.list(res[4])) == len(d) else [h.any([])]
        ok.append(h.all([good[s], len(coef) == deg + 1] + [h.eq(u, v, 1e-9) for u, v in zip(coef, r["coef"])] + [h.count([i for p, w, i in inl]) == len(xs), len(xs) == len(ys)] + matches_ok + best_ok + num))
    if guess:
        xs, ys = h.list(res[1]), h.list(res[2])
        own = [h.any([h.all([wins, e < tol_r, h.same(x, p), h.same(y, lines[i])]) for p, i, chosen, wins, e in gm]) for x, y in zip(xs, ys)]
        won = [h.implies(a, c >= gcost - 1e-7) for a, c in zip(good, cost)]
        ok = [h.all([o, h.any([h.all([good[r["sample"]], cost[r["sample"]] <= gcost + 1e-7])])]) for o, r in zip(ok, rec.robust)]
        ok.append(h.all(own + won + [len(coef) == deg + 1] + [h.eq(u, v, 1e-9) for u, v in zip(coef, g)]))
    h.check(h.any(ok), "the solution, its matches and residuals are those of the cheapest acceptable sample")
    h.reach()


def instances(tier):
    p3, o3 = [2, 5, 9], [4040.0, 4100.0, 4180.0]
    p4, o4 = [2, 5, 9, 14], [4040.0, 4100.0, 4180.0, 4280.0]
    yield "best", best, dict(peaks=p3, offsets=o3, limit=2, tries=2), dict(cost=9)
    yield "best", best, dict(peaks=p3, offsets=o3, limit=2, tries=2, sym=("tol",)), dict(cost=9)
    yield "best", best, dict(peaks=p3, offsets=o3, limit=2, tries=2, weights=True), dict(cost=20)
    # the second draw is never increasing: the second sample is redrawn
    yield "best", best, dict(peaks=p3, offsets=o3, limit=3, tries=2, ranges={1: (-10, 0)}), dict(cost=9)
    # two peaks with the same two lines: samples match different numbers of lines
    yield "best", best, dict(peaks=[2, 5, 5.2], offsets=[4040.0, 4098.0, 4106.0], limit=2, tries=2, spread=6.0, fixed=True, ranges={0: (18, 22), 1: (18, 22)}), dict(cost=20)
    yield "best", best, dict(peaks=p3, offsets=o3, limit=2, tries=2, known=True), dict(cost=9)
    yield "best", best, dict(peaks=p4, offsets=o4, limit=2, tries=2, matches=3), dict(cost=9)
    # a guess stays unless a sample is cheaper
    yield "best", best, dict(peaks=p3, offsets=o3, limit=1, guess=True, ranges={0: (18, 22)}), dict(cost=9)
    yield "best", best, dict(peaks=p3, offsets=o3, limit=1, guess=True, weights=True, ranges={0: (18, 22)}), dict(cost=9)
    yield "best", best, dict(peaks=[2, 5, 5.2], offsets=[4040.0, 4098.0, 4106.0], limit=1, guess=True, spread=6.0, fixed=True, ranges={0: (18, 22)}), dict(cost=9)
    # a weight that is no number asks for no density
    yield "best", best, dict(peaks=p3, offsets=o3, limit=1, heavy=float("inf"), ranges={0: (18, 22)}), dict(cost=9)
    # other bases
    for kind in ("legendre", "chebyshev"):
        yield "best", best, dict(peaks=p4, offsets=o4, limit=1, deg=2, size=3, kind=kind, ranges={0: (19, 21)}), dict(cost=9)
        yield "best", best, dict(peaks=p3, offsets=o3, limit=1, kind=kind), dict(cost=9)
        yield "best", best, dict(peaks=p4, offsets=o4, limit=1, deg=2, size=3, kind=kind, flat=True, ranges={0: (19, 21)}), dict(cost=9)
    # what the user asks for beyond the matches
    yield "best", best, dict(peaks=p4, offsets=o4, limit=1, sym=("use",), ranges={0: (18, 22)}), dict(cost=9)
    yield "best", best, dict(peaks=p3, offsets=[4041.0, 4099.0, 4181.5], limit=2, tries=2, sym=("error",), fixed=True, ranges={0: (18, 22), 1: (18, 22)}), dict(cost=9)
    # pixels missing from the list; a parabola
    yield "best", best, dict(peaks=p3, offsets=o3, limit=1, weights=True, pixels=[0, 1, 3, 4, 6, 9, 10, 17]), dict(cost=9)
    yield "best", best, dict(peaks=p4, offsets=o4, limit=1, weights=True, deg=2, size=3, pixels=[0, 2, 3, 9, 17]), dict(cost=9)
    # a parabola: samples match different numbers of lines
    yield "best", best, dict(peaks=[2, 5, 5.2, 9, 14], offsets=[4040.0, 4098.0, 4106.0, 4180.0, 4280.0], limit=2, tries=2, deg=2, size=3, spread=6.0, fixed=True, flat=True, ranges={0: (19, 21), 1: (19, 21)}), dict(cost=20)
    if tier == "thorough":
        yield "best", best, dict(peaks=p4, offsets=o4, limit=2, tries=2, sym=("use",), ranges={0: (18, 22), 1: (18, 22)}), dict(cost=90)
        yield "best", best, dict(peaks=p3, offsets=[4041.0, 4099.0, 4181.5], limit=3, tries=3, sym=("error",), fixed=True, ranges={k: (18, 22) for k in range(3)}), dict(cost=90)
        yield "best", best, dict(peaks=p3, offsets=o3, limit=3, brute=True, size=2), dict(cost=90)
        yield "best", best, dict(peaks=[2, 5, 5.2, 9], offsets=[4040.0, 4098.0, 4106.0, 4180.0], limit=2, tries=2, spread=6.0), dict(cost=90)
        yield "best", best, dict(peaks=p3, offsets=o3, limit=3, tries=3), dict(cost=90)
        yield "best", best, dict(peaks=p3, offsets=o3, limit=3, tries=2, weights=True, matches=3), dict(cost=90)
        yield "best", best, dict(peaks=p3, offsets=o3, limit=3, brute=True, size=2, weights=True), dict(cost=90)
        yield "best", best, dict(peaks=p4, offsets=o4, limit=2, tries=2, weights=True, sym=("tol",)), dict(cost=90)
        yield "best", best, dict(peaks=p4, offsets=o4, limit=4, brute=True, size=3, matches=3), dict(cost=90)
