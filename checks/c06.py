from vlib.oracle import check_list
from vlib.again import twice

PROPERTY = "C06"
BOUNDS = "atlases of up to 4 lines (thorough 6), up to 2 removals in a row, every real wavelength, intensity, position and tolerance; on the atlas and through the calibrator"
OUTSIDE = "longer atlases"


def removal(h, n, times=1, through=False, default=False):
    from rascal.atlas import Atlas

    w = h.reals("w", n, 1000, 20000)
    i = h.reals("i", n, 0, 1000)
    el = ["E%d" % k for k in range(n)]
    atlas = Atlas()
    if n:
        atlas.add_user_atlas(list(el), list(w), list(i))
    target = atlas
    if through:
        from rascal.calibrator import Calibrator

        target = Calibrator([10.0, 20.0])
        target.set_atlas(atlas)
    keep = [h.all([True]) for _ in range(n)]
    for t in range(times):
        x = h.real("x%d" % t, 1000, 20000)
        if default:
            tol = 10
            target.remove_atlas_lines_range(x)
        else:
            tol = h.real("tol%d" % t, 0, 20000)
            target.remove_atlas_lines_range(x, tolerance=tol)
        keep = [h.all([k, h.not_(abs(v - x) < tol)]) for k, v in zip(keep, w)]
    left = [k for k in range(n) if bool(keep[k])]
    a = target.atlas if through else atlas
    h.check(len(a) == len(left), "length")
    check_list(h, a.get_lines(), [w[k] for k in left], "wavelengths")
    check_list(h, a.get_elements(), [el[k] for k in left], "elements")
    check_list(h, a.get_intensities(), [i[k] for k in left], "intensities")
    target.clear_atlas() if through else atlas.clear()
    h.check(len(a) == 0 and list(a.get_lines()) == [], "cleared")
    h.reach()


def instances(tier):
    for n in range(0, 5 if tier == "quick" else 7):
        yield "removal", removal, dict(n=n), dict(cost=2**n)
    yield "removal", removal, dict(n=3, times=2), dict(cost=9)
    yield "removal", removal, dict(n=2, default=True), dict(cost=2)
    yield "through", removal, dict(n=3, through=True), dict(cost=5)
    yield "through", removal, dict(n=2, through=True, default=True), dict(cost=5)
    yield "through", removal, dict(n=2, times=2, through=True), dict(cost=5)
    yield "again", twice(removal), dict(first=dict(n=2), second=dict(n=2)), dict(cost=4)
    if tier == "thorough":
        yield "removal", removal, dict(n=4, times=2), dict(cost=100)
        yield "through", removal, dict(n=4, times=2, through=True), dict(cost=100)
