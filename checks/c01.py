from vlib import catalogue as C
from vlib.oracle import check_rows
from vlib.again import twice

PROPERTY = "C01"
BOUNDS = (
    "line lists of up to 4 (thorough 5) lines over two requested and one other element, every real wavelength, intensity, range "
    "limit and intensity threshold; 1-4 brightest lines; equal wavelengths included; numbers written plainly or with an exponent in 24 characters"
)
OUTSIDE = "longer lists; element names of more than 12 characters; ties in intensity at the brightest-lines cut"
STUBS = "np.loadtxt returns symbolic rows (the replay reads a real file); edlen_refraction is a made-up function of its conditions (its formula is C03)"


def filters(h, elements, request, intensity=None, brightest=None, vacuum=True, single=False, long=False):
    from rascal import util

    ll = C.LineList(h, elements, long=long)
    lo, hi = h.real("lo", 500, 25000), h.real("hi", 500, 25000)
    if intensity == "list":
        m = h.reals("m", len(request), 0, 10000)
    elif intensity == "one":
        m = h.real("m", 0, 10000)
    elif intensity == "tuple":
        m = tuple(h.reals("m", len(request), 0, 10000))
    elif intensity is not None:
        import numpy as np

        m = {"int": 500, "numpy int": np.int64(500), "numpy float": np.float32(512.5), "array": np.array([500, 900][: len(request)])}[intensity]
    else:
        m = None
    if brightest is not None:
        h.distinct(ll.i)
    kw = {}
    if not vacuum:
        C.stub_refraction(h)
        kw = dict(pressure=C.PRESSURE, temperature=C.TEMPERATURE, relative_humidity=C.HUMIDITY)
    if brightest is not None:
        kw["brightest_n_lines"] = brightest
    out = util.load_calibration_lines(
        elements=request[0] if single else list(request), min_atlas_wavelength=lo, max_atlas_wavelength=hi, min_intensity=m,
        min_distance=0, vacuum=vacuum, linelist=ll.path, **kw
    )
    ll.done()
    n = 1.0 if vacuum else C.index()
    ok = C.brightest(h, ll, C.qualifying(h, ll, request, lo * n, hi * n, m), brightest)
    el, wl, it = [h.list(x) for x in out]
    h.check(len(el) == len(wl) == len(it), "columns of equal length")
    rows = [(C.code(a), b, c) for a, b, c in zip(el, wl, it)]
    exp = [(C.code(a), b / n, c) for a, b, c in zip(ll.e, ll.w, ll.i)]
    check_rows(h, rows, exp, ok, "lines")
    h.reach()


def instances(tier):
    A, B, X = "Hg", "Ar", "Xe"
    yield "range", filters, dict(elements=[A, B, X], request=[A, B]), dict(cost=3)
    yield "range", filters, dict(elements=[B, A, A], request=[A]), dict(cost=3)
    yield "single", filters, dict(elements=[X, A, X], request=[X], intensity="one", single=True), dict(cost=3)
    yield "single", filters, dict(elements=[A], request=[A, B], intensity="one"), dict(cost=1)
    yield "intensity", filters, dict(elements=[A, B, A], request=[A, B], intensity="one"), dict(cost=4)
    yield "intensities", filters, dict(elements=[A, B, A], request=[B, A], intensity="list"), dict(cost=4)
    yield "intensities", filters, dict(elements=[X, B, A], request=[A, B], intensity="list"), dict(cost=4)
    yield "brightest", filters, dict(elements=[A, B, X, B], request=[A, B], brightest=2), dict(cost=8)
    yield "brightest", filters, dict(elements=[A, B, A], request=[A, B], brightest=1, intensity="one"), dict(cost=8)
    yield "brightest", filters, dict(elements=[A, B, A], request=[A, B], brightest=2), dict(cost=8)
    yield "brightest", filters, dict(elements=[A, B], request=[A, B], brightest=4), dict(cost=2)
    yield "brightest", filters, dict(elements=[A, B], request=[A, B], brightest=0), dict(cost=1)
    for k in ("int", "numpy int", "numpy float", "array", "tuple"):
        yield "kinds", filters, dict(elements=[A, B], request=[B, A], intensity=k), dict(cost=1)
    yield "case", filters, dict(elements=[A, B, "hg"], request=["HG", "ar"], intensity="list"), dict(cost=4)
    yield "case", filters, dict(elements=[A, B], request=["hg"], intensity="one", single=True), dict(cost=1)
    yield "air", filters, dict(elements=[A, B, X], request=[A, B], vacuum=False), dict(cost=4)
    yield "air", filters, dict(elements=[A, A], request=[A], vacuum=False, intensity="one", brightest=1), dict(cost=4)
    yield "written", filters, dict(elements=[A, B], request=[A], intensity="one", long=True), dict(cost=2)
    yield "written", filters, dict(elements=[B, A, B], request=[B], brightest=1, long=True), dict(cost=2)
    yield "again", twice(filters), dict(first=dict(elements=[A, B], request=[A]), second=dict(elements=[A, B], request=[B])), dict(cost=3)
    yield "again", twice(filters), dict(first=dict(elements=[A, B], request=[A, B], brightest=1), second=dict(elements=[B, A], request=[A, B], intensity="one")), dict(cost=6)
    yield "again", twice(filters), dict(first=dict(elements=[A], request=[A], vacuum=False), second=dict(elements=[A], request=[A])), dict(cost=3)
    if tier == "thorough":
        yield "intensity", filters, dict(elements=[A, B, A, X, B], request=[A, B], intensity="list"), dict(cost=40)
        yield "brightest", filters, dict(elements=[A, B, A, B], request=[A, B], brightest=2, intensity="list"), dict(cost=50)
        yield "brightest", filters, dict(elements=[A, B, A, A], request=[A, B], brightest=3, vacuum=False), dict(cost=40)
        yield "air", filters, dict(elements=[A, B, A, B], request=[A, B], vacuum=False, intensity="one"), dict(cost=20)
