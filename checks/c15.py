import scipy.spatial

from vlib import cal as K
from vlib import symnp as S

PROPERTY = "C15"
BOUNDS = "1-2 peaks anywhere on (and past) a detector of 10 or 1000 pixels, 1-2 lines (thorough 3), every real wavelength range, range tolerance and candidate tolerance; pixel lists that do not start at zero"
OUTSIDE = "pairs within 1e-5 of the outline; empty quadrilaterals"
STUBS = "in the symbolic run scipy.spatial.Delaunay is replaced by an exact test for the convex hull of the four corners; the replay uses the real one"


class Hull:
    """convex hull of up to four points, exactly"""

    def __init__(self, points, *a, **k):
        self.p = [(q[0], q[1]) for q in points]

    def inside(self, x, y):
        import itertools

        h = self.h
        res = []
        for a, b, c in itertools.combinations(self.p, 3):
            s = []
            for (ux, uy), (vx, vy) in ((a, b), (b, c), (c, a)):
                s.append((vx - ux) * (y - uy) - (vy - uy) * (x - ux))
            area = (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])
            res.append(h.all([area > 0] + [v >= 0 for v in s]))
            res.append(h.all([area < 0] + [v <= 0 for v in s]))
        return h.any(res)

    def find_simplex(self, xi, *a, **k):
        xi = S.plain(xi)
        flat = xi.reshape(-1, 2)
        return S.symarray([self.h.ite(self.inside(r[0], r[1]), 0, -1) for r in flat]).reshape(xi.shape[:-1])


def polygon(h, peaks, n, pixels, late=False, user=False):
    if h.symbolic:
        Hull.h = h
        h.stub(scipy.spatial.Delaunay, Hull)
    w = h.reals("w", n, 1000, 20000)
    w0, w1 = h.real("wmin", 2000, 9000), h.real("wmax", 2000, 12000)
    rt, lt, ct = h.real("rt", 0, 1000), h.real("lt", 0, 1000), h.real("ct", 0, 1000)
    h.assume(rt + ct >= 1)
    cal = K.make(h, peaks, num_pix=10, spectrum=[0.0] * 10)
    pixels = list(range(pixels)) if isinstance(pixels, int) else pixels
    cal.set_calibrator_properties(pixel_list=list(pixels))
    props = dict(min_wavelength=w0, max_wavelength=w1, range_tolerance=rt, linearity_tolerance=lt)
    if not late:
        cal.set_hough_properties(**props)
    if user:
        cal.add_user_atlas(["E%d" % i for i in range(n)], list(w), candidate_tolerance=ct, constrain_poly=True)
    else:
        cal.set_atlas(K.make_atlas(h, w), candidate_tolerance=ct, constrain_poly=True)
    if late:
        # the search range is set once the atlas is there
        cal.set_hough_properties(**props)
    rows = h.rows(cal.pairs)
    last = float(max(pixels))
    for p in peaks:
        for x in w:
            f = p / last
            lo = (1 - f) * (w0 - rt - ct) + f * (w1 - rt - ct)
            hi = (1 - f) * (w0 + rt + ct) + f * (w1 + rt + ct)
            there = h.any([h.all([h.same(r[0], p), h.eq(r[1], x)]) for r in rows])
            if p < 0 or p > last:
                h.check(h.not_(there), "a peak off the detector has no pair")
                continue
            h.check(h.implies(h.all([x > lo + 1e-5, x < hi - 1e-5]), there), "a pair inside is kept")
            h.check(h.implies(h.any([x < lo - 1e-5, x > hi + 1e-5]), h.not_(there)), "a pair outside is not kept")
    h.distinct(w)
    for i, r in enumerate(rows):
        h.check(h.any([h.all([h.same(r[0], p), h.eq(r[1], x)]) for p in peaks for x in w]), "pair %d is a peak with a line" % i)
    h.check(len(rows) <= len(peaks) * n, "each pair once")
    h.reach()


def off(h):
    """without the constraint every pair is kept"""
    w = h.reals("w", 2, 1000, 20000)
    cal = K.make(h, [100.0, 900.0], w)
    h.check(len(h.rows(cal.pairs)) == 4, "every pair is kept")
    h.reach()


def instances(tier):
    ten, thousand = 10, 1000
    yield "off", off, {}, dict(cost=1)
    yield "polygon", polygon, dict(peaks=[0.0], n=1, pixels=ten), dict(cost=2)
    yield "polygon", polygon, dict(peaks=[4.5], n=2, pixels=ten), dict(cost=2)
    yield "polygon", polygon, dict(peaks=[250.0, 900.0], n=1, pixels=thousand), dict(cost=2)
    yield "polygon", polygon, dict(peaks=[9.0], n=1, pixels=ten, late=True), dict(cost=2)
    yield "polygon", polygon, dict(peaks=[11.0, 3.0], n=1, pixels=ten), dict(cost=2)
    yield "polygon", polygon, dict(peaks=[500.0, 40.0], n=1, pixels=[20, 30, 500, 700, 300], late=True), dict(cost=2)
    yield "polygon", polygon, dict(peaks=[4.5, 8.0], n=1, pixels=ten, user=True), dict(cost=2)
    yield "polygon", polygon, dict(peaks=[250.0], n=2, pixels=thousand, user=True, late=True), dict(cost=2)
    if tier == "thorough":
        yield "polygon", polygon, dict(peaks=[1.0, 8.0], n=2, pixels=ten), dict(cost=20)
        yield "polygon", polygon, dict(peaks=[5.0], n=3, pixels=ten), dict(cost=20)
        yield "polygon", polygon, dict(peaks=[0.0, 999.0, 1001.0], n=1, pixels=thousand, late=True), dict(cost=20)
