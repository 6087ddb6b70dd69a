from vlib import cal as K
from vlib.oracle import check_rows
from vlib.again import twice

PROPERTY = "C09"
BOUNDS = "2-4 (thorough 5) pixel/wavelength pairs in any order, equal pixels included; every real wavelength and limit, pixels real (2 pairs, thorough 3) or from listed sets"
OUTSIDE = "fewer than two pairs; more pairs"


def points(h, n, pixels=None, mixed=False):
    from rascal.houghtransform import HoughTransform

    x = [float(p) for p in pixels] if pixels is not None else h.reals("x", n, 0, 5000)
    y = h.reals("y", n, -20000, 20000)
    smin, smax = h.real("smin", -50, 50), h.real("smax", -50, 50)
    imin, imax = h.real("imin", -20000, 20000), h.real("imax", -20000, 20000)
    if pixels is None:
        # far enough apart to tell the replay's slopes from rounding
        for i in range(n):
            for j in range(i):
                h.assume(h.any([h.same(x[i], x[j]), abs(x[i] - x[j]) >= 1]))
    ht = HoughTransform()
    ht.set_constraints(smin, smax, imin, imax)
    ax, ay = h.arr(x), h.arr(y)
    ht.generate_hough_points_brute_force(ax, ay)
    out = h.rows(ht.hough_points)
    exp, cond = [], []
    for i in range(n):
        for j in range(i + 1, n):
            if bool(h.same(x[i], x[j])):
                continue
            a, b = (i, j) if bool(x[i] < x[j]) else (j, i)
            g = (y[b] - y[a]) / (x[b] - x[a])
            c = y[a] - g * x[a]
            exp.append((g, c))
            cond.append(h.all([g > smin, g < smax, c > imin, c < imax]))
    check_rows(h, out, exp, cond, "brute-force Hough points", 1e-5)
    for i in range(n):
        h.check(h.all([h.same(ax[i], x[i]), h.same(ay[i], y[i])]), "arguments unchanged")
    h.reach()


def through(h, pixels=(10, 40)):
    """the calibrator's transform by brute force"""
    w = h.reals("w", 2, 3000, 7000)
    h.distinct(w)
    cal = K.make(h, [float(p) for p in pixels], w)
    ht = type(cal.ht)

    def bins(self, *a, **k):
        self.hough_lines = [(7.0, 9.0)]

    h.setattr(ht, "bin_hough_points", bins)
    lo, hi, imin, imax = cal.min_slope, cal.max_slope, cal.min_intercept, cal.max_intercept
    cal.do_hough_transform(brute_force=True)
    exp, cond = [], []
    for i, a in enumerate(pixels):
        for b in pixels[:i]:
            for u in w:
                for v in w:
                    g = (u - v) / (a - b)
                    c = u - g * a
                    exp.append((g, c))
                    cond.append(h.all([g > lo, g < hi, c > imin, c < imax]))
                    h.assume(h.all([h.not_(h.eq(g, t, 1e-6)) for t in (lo, hi)] + [h.not_(h.eq(c, t, 1e-6)) for t in (imin, imax)]))
    check_rows(h, h.rows(cal.hough_points), exp, cond, "the calibrator's brute-force Hough points", 1e-5)
    h.reach()


def instances(tier):
    yield "through", through, dict(), dict(cost=4)
    yield "points", points, dict(n=2), dict(cost=2)
    yield "listed", points, dict(n=3, pixels=(10, 40, 25)), dict(cost=4)
    yield "listed", points, dict(n=3, pixels=(7, 7, 3.5)), dict(cost=4)
    yield "listed", points, dict(n=3, pixels=(100, 50, 2)), dict(cost=4)
    yield "listed", points, dict(n=2, pixels=(5, 5)), dict(cost=1)
    yield "listed", points, dict(n=4, pixels=(30, 10, 30, 20.5)), dict(cost=20)
    yield "again", twice(points), dict(first=dict(n=2, pixels=(10, 40)), second=dict(n=2, pixels=(10, 40))), dict(cost=3)
    if tier == "thorough":
        yield "points", points, dict(n=3), dict(cost=60)
        yield "listed", points, dict(n=4, pixels=(1000, 10, 500, 250)), dict(cost=60)
