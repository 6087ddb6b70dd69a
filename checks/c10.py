from vlib.again import twice

PROPERTY = "C10"
BOUNDS = "1-3 (thorough 4) points anywhere in the plane, 2x2 to 3x4 cells"
OUTSIDE = "a single bin in a direction; points nearer than 0.01 but not equal in gradient or intercept; more points or cells"


def binned(h, n, xb, yb, limits=None):
    from rascal.houghtransform import HoughTransform

    g = h.reals("g", n, -50, 50)
    c = h.reals("c", n, -20000, 20000)
    for v in (g, c):
        for i in range(n):
            for j in range(i):
                h.assume(h.any([h.same(v[i], v[j]), abs(v[i] - v[j]) >= 0.01]))
    ht = HoughTransform()
    if limits:
        # points beyond the limits (added by hand, say) count all the same
        ht.set_constraints(*limits)
    ht.hough_points = _two(h, g, c)
    ht.bin_hough_points(xb, yb)
    xe, ye = h.list(ht.xedges), h.list(ht.yedges)
    hist = h.rows(ht.hist)
    h.check(len(xe) == xb + 1 and len(ye) == yb + 1, "number of edges")
    h.check(len(hist) == xb and all(len(r) == yb for r in hist), "shape of the accumulator")
    lines = h.rows(ht.hough_lines)
    h.check(len(lines) == xb * yb, "one line per cell")
    for e in (xe, ye):
        for a, b in zip(e[:-1], e[1:]):
            h.check(b > a, "edges increase")
            h.check(h.eq((b - a) * 1000, (e[-1] - e[0]) / (len(e) - 1) * 1000), "cells of equal size")
    total = 0
    for i in range(xb):
        for j in range(yb):
            inside = []
            for a, b in zip(g, c):
                cx = [a >= xe[i], a <= xe[i + 1] if i == xb - 1 else a < xe[i + 1]]
                cy = [b >= ye[j], b <= ye[j + 1] if j == yb - 1 else b < ye[j + 1]]
                inside.append(h.all(cx + cy))
            h.check(h.same(hist[i][j], h.count(inside)), "count of cell %d,%d" % (i, j))
            total = total + hist[i][j]
    h.check(h.same(total, n), "each point is counted once")
    # every line is the centre of a cell, every cell has one line
    left = [(i, j) for i in range(xb) for j in range(yb)]
    order = []
    sx, sy = (xe[-1] - xe[0]) / xb, (ye[-1] - ye[0]) / yb
    for a, b in lines:
        hit = None
        for i, j in left:
            near = h.all([abs(a - (xe[i] + xe[i + 1]) / 2) <= 1e-6 * sx + 1e-8, abs(b - (ye[j] + ye[j + 1]) / 2) <= 1e-6 * sy + 1e-8])
            if bool(near):
                hit = (i, j)
                break
        h.check(hit is not None, "line is the centre of a cell of its own")
        if hit is None:
            return
        left.remove(hit)
        order.append(hist[hit[0]][hit[1]])
    for a, b in zip(order[:-1], order[1:]):
        h.check(a >= b, "lines by falling count")
    h.reach()


def _two(h, g, c):
    a = h.arr([v for p in zip(g, c) for v in p])
    return a.reshape(len(g), 2)


def through(h, n, slopes, xb, yb):
    """generated, binned and listed through the calibrator"""
    from rascal.atlas import Atlas
    from rascal.calibrator import Calibrator

    w = h.reals("w", n, 3000, 9000)
    atlas = Atlas()
    atlas.add_user_atlas(["A"] * n, list(w))
    cal = Calibrator([100.0, 700.0])
    cal.set_calibrator_properties(num_pix=1000, log_level="critical")
    cal.set_hough_properties(num_slopes=slopes, xbins=xb, ybins=yb, min_wavelength=3500.0, max_wavelength=8500.0)
    cal.set_atlas(atlas)
    cal.do_hough_transform()
    rows = h.rows(cal.hough_points)
    h.check(len(rows) == len(h.rows(cal.ht.hough_points)), "points of the calibrator")
    total = 0
    for r in h.rows(cal.ht.hist):
        for v in r:
            total = total + v
    h.check(h.same(total, len(rows)), "each point is counted once")
    h.check(len(cal.hough_lines) == xb * yb, "one line per cell")
    for a, b in zip(h.rows(cal.hough_lines), h.rows(cal.ht.hough_lines)):
        h.check(h.all([h.same(a[0], b[0]), h.same(a[1], b[1])]), "lines of the calibrator")
    h.reach()


def instances(tier):
    yield "binned", binned, dict(n=1, xb=2, yb=3), dict(cost=1)
    yield "binned", binned, dict(n=2, xb=2, yb=2), dict(cost=3)
    yield "binned", binned, dict(n=1, xb=2, yb=2, limits=(1.0, 2.0, 3000.0, 5000.0)), dict(cost=1)
    yield "binned", binned, dict(n=2, xb=2, yb=2, limits=(-5.0, 5.0, 0.0, 10000.0)), dict(cost=3)
    yield "binned", binned, dict(n=2, xb=3, yb=2), dict(cost=5)
    yield "binned", binned, dict(n=3, xb=2, yb=2), dict(cost=15)
    yield "through", through, dict(n=1, slopes=2, xb=2, yb=2), dict(cost=15)
    yield "again", twice(binned), dict(first=dict(n=1, xb=2, yb=2), second=dict(n=1, xb=2, yb=3)), dict(cost=3)
    if tier == "thorough":
        yield "binned", binned, dict(n=3, xb=3, yb=2), dict(cost=60)
        yield "binned", binned, dict(n=3, xb=2, yb=3), dict(cost=60)
        yield "binned", binned, dict(n=2, xb=3, yb=4), dict(cost=30)
        yield "binned", binned, dict(n=4, xb=2, yb=2), dict(cost=90)
