from vlib import cal as K
from vlib.oracle import check_rows
from vlib.again import twice

PROPERTY = "C08"
BOUNDS = "1-3 pixel/wavelength pairs, 2-4 slopes (quick), up to 4 pairs / 5 slopes (thorough); all real pixels, wavelengths and limits; through the calibrator 2-4 pairs at fixed limits"
OUTSIDE = "more pairs or slopes; num_slopes < 2"


def points(h, n, slopes):
    from rascal.houghtransform import HoughTransform

    x = h.reals("x", n, -5000, 5000)
    y = h.reals("y", n, -20000, 20000)
    smin = h.real("smin", -50, 50)
    smax = h.real("smax", -50, 50)
    imin = h.real("imin", -20000, 20000)
    imax = h.real("imax", -20000, 20000)
    h.assume(smin < smax)
    h.assume(imin < imax)
    ht = HoughTransform()
    ht.set_constraints(smin, smax, imin, imax)
    ht.generate_hough_points(h.arr(x), h.arr(y), slopes)
    out = h.rows(ht.hough_points)
    exp, cond = [], []
    for j in range(slopes):
        s = smin + (smax - smin) * j / (slopes - 1)
        for a, b in zip(x, y):
            c = b - s * a
            exp.append((s, c))
            cond.append(h.all([c >= imin, c <= imax]))
    check_rows(h, out, exp, cond, "Hough points")
    h.reach()


def through(h, how, n=2, lines=1, slopes=3):
    """the calibrator's transform"""
    x = h.reals("x", n, 1, 900)
    w = h.reals("w", lines, 3000, 7000)
    cal = K.make(h, x, w, hough=dict(num_slopes=slopes), spectrum=[0.0] * 1000)
    ht = type(cal.ht)
    binned = []

    def bins(self, xbins, ybins, *a, **k):
        binned.append((xbins, ybins))
        self.hough_lines = [(7.0, 9.0)]

    h.setattr(ht, "bin_hough_points", bins)
    lo, hi, imin, imax = cal.min_slope, cal.max_slope, cal.min_intercept, cal.max_intercept
    if how == "default":
        cal.do_hough_transform()
    else:
        cal.do_hough_transform(brute_force=False)
    exp, cond = [], []
    for j in range(slopes):
        s = lo + (hi - lo) * j / (slopes - 1)
        for a in x:
            for b in w:
                c = b - s * a
                exp.append((s, c))
                cond.append(h.all([c >= imin, c <= imax]))
                h.assume(h.all([h.not_(h.eq(c, imin, 1e-6)), h.not_(h.eq(c, imax, 1e-6))]))
    check_rows(h, h.rows(cal.hough_points), exp, cond, "the calibrator's Hough points")
    h.check(binned == [(2, 2)], "binned as configured")
    h.check(list(map(tuple, cal.hough_lines)) == [(7.0, 9.0)], "the calibrator uses the lines found")
    h.reach()


def instances(tier):
    yield "through", through, dict(how="default"), dict(cost=4)
    yield "through", through, dict(how="asked", n=1, lines=2, slopes=4), dict(cost=4)
    sizes = [(1, 2), (2, 2), (2, 3), (3, 2), (1, 4)]
    yield "again", twice(points), dict(first=dict(n=1, slopes=2), second=dict(n=1, slopes=3)), dict(cost=3)
    if tier == "thorough":
        sizes += [(3, 3), (2, 5), (4, 2)]
    for n, s in sizes:
        yield "points", points, dict(n=n, slopes=s), dict(cost=n * s)
