from vlib import catalogue as C
from vlib.oracle import check_rows
from vlib.again import twice

PROPERTY = "C02"
BOUNDS = "line lists of up to 4 lines (thorough 5); every real wavelength, intensity and separation; separation masks of up to 5 (thorough 6) ascending wavelengths"
OUTSIDE = "longer lists; ties in intensity at the brightest-lines cut"
STUBS = "np.loadtxt returns symbolic rows (the replay reads a real file); edlen_refraction is a made-up function of its conditions (its formula is C03)"


def separation(h, elements, request, brightest=None, vacuum=True, intensity=False):
    from rascal import util

    ll = C.LineList(h, elements)
    h.distinct(ll.w)
    lo, hi = h.real("lo", 500, 25000), h.real("hi", 500, 25000)
    sep = h.real("sep", 0.001, 20000)
    m = h.real("m", 0, 10000) if intensity else None
    if brightest is not None:
        h.distinct(ll.i)
    kw = {}
    if not vacuum:
        C.stub_refraction(h)
        kw = dict(pressure=C.PRESSURE, temperature=C.TEMPERATURE, relative_humidity=C.HUMIDITY)
    if brightest is not None:
        kw["brightest_n_lines"] = brightest
    out = util.load_calibration_lines(
        elements=list(request), min_atlas_wavelength=lo, max_atlas_wavelength=hi, min_intensity=m, min_distance=sep, vacuum=vacuum,
        linelist=ll.path, **kw
    )
    ll.done()
    n = 1.0 if vacuum else C.index()
    ok = C.brightest(h, ll, C.qualifying(h, ll, request, lo * n, hi * n, m), brightest)
    ok = C.isolated(h, ll, ok, sep)
    el, wl, it = [h.list(x) for x in out]
    h.check(len(el) == len(wl) == len(it), "columns of equal length")
    rows = [(C.code(a), b, c) for a, b, c in zip(el, wl, it)]
    exp = [(C.code(a), b / n, c) for a, b, c in zip(ll.e, ll.w, ll.i)]
    check_rows(h, rows, exp, ok, "isolated lines")
    h.reach()


def mask(h, n, zero=False):
    filter_separation = h.func("rascal.util", "filter_separation")
    w = h.reals("w", n, 1000, 20000)
    for a, b in zip(w[:-1], w[1:]):
        h.assume(b > a)
    sep = 0 if zero else h.real("sep", 0, 20000)
    keep = [bool(x) for x in h.list(filter_separation(h.arr(w), sep))]
    h.check(len(keep) == n, "mask of the same length")
    if len(keep) == n:
        for k in range(n):
            alone = h.all([abs(w[j] - w[k]) >= sep for j in range(n) if j != k])
            h.check(h.iff(alone, keep[k]), "mask[%d]" % k)
    h.reach()


def instances(tier):
    A, B, X = "Hg", "Ar", "Xe"
    yield "separation", separation, dict(elements=[A, B, X], request=[A, B]), dict(cost=3)
    yield "separation", separation, dict(elements=[A, A, B], request=[A, B]), dict(cost=5)
    yield "lone", separation, dict(elements=[A], request=[A]), dict(cost=1)
    yield "none", separation, dict(elements=[X], request=[A]), dict(cost=1)
    yield "intensity", separation, dict(elements=[A, B, A], request=[A, B], intensity=True), dict(cost=6)
    yield "brightest", separation, dict(elements=[A, B, A], request=[A, B], brightest=2), dict(cost=8)
    yield "brightest", separation, dict(elements=[A, B, A], request=[A, B], brightest=3), dict(cost=8)
    yield "air", separation, dict(elements=[A, B], request=[A, B], vacuum=False, brightest=2), dict(cost=4)
    yield "air", separation, dict(elements=[A, B, A], request=[A, B], vacuum=False), dict(cost=6)
    for n in (0, 1, 2, 3, 4, 5) + ((6,) if tier == "thorough" else ()):
        yield "mask", mask, dict(n=n), dict(cost=n)
    yield "mask", mask, dict(n=3, zero=True), dict(cost=2)
    yield "again", twice(separation), dict(first=dict(elements=[A, B], request=[A]), second=dict(elements=[A, B], request=[A, B])), dict(cost=5)
    yield "again", twice(mask), dict(first=dict(n=2), second=dict(n=2)), dict(cost=3)
    if tier == "thorough":
        yield "separation", separation, dict(elements=[A, B, A, B], request=[A, B], intensity=True), dict(cost=40)
        yield "brightest", separation, dict(elements=[A, B, A, X, B], request=[A, B], brightest=3), dict(cost=60)
        yield "air", separation, dict(elements=[A, B, A, B], request=[A, B], vacuum=False), dict(cost=30)
