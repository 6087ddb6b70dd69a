from vlib import catalogue as C
from vlib.oracle import check_list, raises

PROPERTY = "C05"
BOUNDS = (
    "histories of up to 3 additions (thorough 4) of up to 3 lines each, from a line list file and from user lists (list, tuple, array, "
    "single line; with and without intensities; vacuum or air), every real wavelength and intensity"
)
OUTSIDE = "longer histories; the filters of the line list (C01, C02)"
STUBS = "np.loadtxt returns symbolic rows (the replay reads a real file); edlen_refraction is a made-up function of its conditions (its formula is C03)"


def check_atlas(h, atlas, exp, label):
    h.check(len(atlas) == len(exp), label + ": length")
    check_list(h, atlas.get_lines(), [x[1] for x in exp], label + ": wavelengths")
    check_list(h, atlas.get_elements(), [x[0] for x in exp], label + ": elements")
    check_list(h, atlas.get_intensities(), [x[2] for x in exp], label + ": intensities")


COND = dict(pressure=C.PRESSURE, temperature=C.TEMPERATURE, relative_humidity=C.HUMIDITY)


def user_step(h, k, atlas, kind, exp):
    n = dict(one=1, single=1).get(kind.split("-")[0], 2)
    w = h.reals("s%dw" % k, n, 1000, 20000)
    i = h.reals("s%di" % k, n, 0, 1000)
    el = ["E%d%d" % (k, j) for j in range(n)]
    kw = {}
    if "conv" in kind:
        kw = dict(vacuum=True, **COND)
    shape = kind.split("-")[0]
    if shape == "single":
        a = (el[0], w[0], i[0])
    elif shape == "tuple":
        a = (tuple(el), tuple(w), tuple(i))
    elif shape == "array":
        a = (el, h.arr(w), h.arr(i))
    else:
        a = (el, list(w), list(i))
    if "noint" in kind:
        atlas.add_user_atlas(a[0], a[1], **kw)
        i = [0] * n
    else:
        atlas.add_user_atlas(a[0], a[1], a[2], **kw)
    f = C.index() if "conv" in kind else 1.0
    exp += [(e, x / f, y) for e, x, y in zip(el, w, i)]
    if shape in ("list", "tuple", "array"):
        for j, (u, v) in enumerate(zip(a[1], w)):
            h.check(h.same(u, v), "step %d leaves the caller's wavelengths alone" % k)


def file_step(h, k, atlas, kind, exp, ll):
    from rascal import util

    request = ["Hg", "Ar"] if "both" in kind else "Ar"
    lo, hi = h.real("s%dlo" % k, 500, 25000), h.real("s%dhi" % k, 500, 25000)
    kw = dict(min_intensity=h.real("s%dm" % k, 0, 1000), min_distance=0, vacuum="air" not in kind, linelist=ll.path, **COND)
    if "sep" in kind:
        kw["min_distance"] = h.real("s%dd" % k, 0.1, 5000)
    if "bright" in kind:
        kw["brightest_n_lines"] = 1
    if "default" in kind:
        atlas.add(request, **kw)
        lo = atlas.min_atlas_wavelength - atlas.range_tolerance
        hi = atlas.max_atlas_wavelength + atlas.range_tolerance
    else:
        atlas.add(request, min_atlas_wavelength=lo, max_atlas_wavelength=hi, **kw)
    for e in request if isinstance(request, list) else [request]:
        out = util.load_calibration_lines(elements=e, min_atlas_wavelength=lo, max_atlas_wavelength=hi, **kw)
        exp += list(zip(*[h.list(x) for x in out]))


def history(h, steps, elements=("Ar", "Hg")):
    from rascal.atlas import Atlas

    C.stub_refraction(h)
    ll = None
    if any(s.startswith("file") for s in steps):
        ll = C.LineList(h, list(elements))
        h.distinct(ll.i)
    if any("default" in s for s in steps):
        lo, hi, tol = h.real("alo", 500, 25000), h.real("ahi", 500, 25000), h.real("atol", 0, 1000)
        atlas = Atlas(min_atlas_wavelength=lo, max_atlas_wavelength=hi, range_tolerance=tol)
    else:
        atlas = Atlas()
    exp = []
    check_atlas(h, atlas, exp, "new atlas")
    for k, s in enumerate(steps):
        if s.startswith("file"):
            file_step(h, k, atlas, s, exp, ll)
        elif s == "clear":
            atlas.clear()
            exp = []
        else:
            user_step(h, k, atlas, s, exp)
        check_atlas(h, atlas, exp, "after step %d (%s)" % (k, s))
    if ll:
        ll.done()
    h.reach()


def construct(h, elements, request):
    """an atlas made with elements holds what load_calibration_lines returns"""
    from rascal import util
    from rascal.atlas import Atlas

    C.stub_refraction(h)
    ll = C.LineList(h, elements)
    lo, hi = h.real("lo", 500, 25000), h.real("hi", 500, 25000)
    kw = dict(
        min_atlas_wavelength=lo, max_atlas_wavelength=hi, min_intensity=h.real("m", 0, 1000), min_distance=h.real("d", 0.1, 5000),
        vacuum=False, linelist=ll.path, **COND
    )
    atlas = Atlas(elements=request, **kw)
    exp = []
    for e in request if isinstance(request, list) else [request]:
        out = util.load_calibration_lines(elements=e, **kw)
        exp += list(zip(*[h.list(x) for x in out]))
    check_atlas(h, atlas, exp, "constructed atlas")
    ll.done()
    h.reach()


def rejected(h, ne, nw, ni):
    from rascal.atlas import Atlas

    atlas = Atlas()
    w0 = h.reals("w0", 2, 1000, 20000)
    atlas.add_user_atlas(["A", "B"], w0)
    w = h.reals("w", nw, 1000, 20000)
    i = h.reals("i", ni, 0, 1000) if ni is not None else None
    _, err = raises(lambda: atlas.add_user_atlas(["X"] * ne, w, i))
    h.check(err is not None, "different lengths are rejected")
    check_atlas(h, atlas, [("A", w0[0], 0), ("B", w0[1], 0)], "after the rejected addition")
    h.reach()


def through_calibrator(h, kinds):
    """the calibrator's own add_user_atlas"""
    from rascal.calibrator import Calibrator

    C.stub_refraction(h)
    c = Calibrator([10.0, 20.0])
    exp = []

    class Through:
        def add_user_atlas(self, *a, **k):
            c.add_user_atlas(*a, **k)

    for k, s in enumerate(kinds):
        user_step(h, k, Through(), s, exp)
        check_atlas(h, c.atlas, exp, "after step %d (%s)" % (k, s))
    h.reach()


def loading(h, request, given, times=1):
    """the calibrator's own add_atlas: what is loaded, and where it goes"""
    import inspect

    from rascal import util
    from rascal.calibrator import Calibrator

    real = util.load_calibration_lines
    sig = inspect.signature(real)
    calls, exp = [], []

    def load(*a, **k):
        b = sig.bind(*a, **k)
        b.apply_defaults()
        b = b.arguments
        els = b["elements"]
        els = [els] if isinstance(els, str) else list(els)
        n = len(calls)
        calls.append((els, b))
        out = [(e, h.real("w%d%s" % (n, e), 1000, 20000), h.real("i%d%s" % (n, e), 0, 1000)) for e in els]
        exp.extend(out)
        return [e for e, w, i in out], h.arr([w for e, w, i in out]), h.arr([i for e, w, i in out])

    h.stub(real, load)
    c = Calibrator([10.0, 20.0])
    lo, hi, tol = h.real("lo", 2000, 5000), h.real("hi", 5001, 9000), h.real("tol", 1, 500)
    c.set_hough_properties(min_wavelength=lo, max_wavelength=hi, range_tolerance=tol)
    want = dict(
        min_atlas_wavelength=lo - tol, max_atlas_wavelength=hi + tol, min_intensity=10.0, min_distance=10.0, vacuum=False,
        pressure=101325.0, temperature=273.15, relative_humidity=0.0,
    )
    kw = {}
    for n in given:
        kw[n] = True if n == "vacuum" else h.real("a_" + n, 1, 2000)
    for k in range(times):
        before = len(calls)
        c.add_atlas(request, candidate_tolerance=4.0, **kw)
        new = calls[before:]
        els = [request] if isinstance(request, str) else request
        h.check([e for es, b in new for e in es] == els, "the requested elements are loaded")
        for es, b in new:
            for n, v in dict(want, **kw).items():
                h.check(h.eq(b[n], v, 1e-9) if not isinstance(v, bool) else b[n] == v, "%s is as given, or the documented default" % n)
        check_atlas(h, c.atlas, exp, "after add_atlas")
    h.reach()


def not_finite(h, which, value):
    """a limit that is not a number of Angstrom is refused"""
    from rascal.atlas import Atlas

    C.stub_refraction(h)
    ll = C.LineList(h, ["Ar"])
    atlas = Atlas()
    exp = []
    user_step(h, 0, atlas, "list", exp)
    kw = dict(min_atlas_wavelength=h.real("lo", 500, 25000), max_atlas_wavelength=h.real("hi", 500, 25000))
    kw[which] = float(value)
    _, err = raises(lambda: atlas.add(["Ar"], linelist=ll.path, min_intensity=0, min_distance=0, vacuum=True, **kw))
    h.check(err == "ValueError", "a limit that is not finite is refused")
    check_atlas(h, atlas, exp, "after the refused addition")
    h.reach()


def instances(tier):
    for which in ("min_atlas_wavelength", "max_atlas_wavelength"):
        for value in ("inf", "-inf", "nan"):
            yield "not_finite", not_finite, dict(which=which, value=value), dict(cost=1)
    yield "loading", loading, dict(request="Xe", given=[], times=2), dict(cost=1)
    yield "loading", loading, dict(request=["Xe", "Hg"], given=["min_atlas_wavelength", "max_atlas_wavelength", "min_intensity", "min_distance", "vacuum"], times=2), dict(cost=1)
    yield "loading", loading, dict(request=["Xe"], given=["pressure", "temperature", "relative_humidity"], times=2), dict(cost=1)
    yield "loading", loading, dict(request=["Xe"], given=["min_atlas_wavelength", "vacuum"]), dict(cost=1)
    for s in ("list", "tuple", "array", "single", "one", "list-noint", "single-noint", "list-conv", "array-conv", "single-conv-noint", "tuple-noint"):
        yield "history", history, dict(steps=[s]), dict(cost=1)
    yield "history", history, dict(steps=["list", "single-noint", "array-conv"]), dict(cost=2)
    yield "history", history, dict(steps=["list", "clear", "array"]), dict(cost=2)
    yield "history", history, dict(steps=["file", "list-noint"]), dict(cost=5)
    yield "history", history, dict(steps=["single", "file-both"]), dict(cost=5)
    yield "history", history, dict(steps=["file-both-air"]), dict(cost=5)
    yield "history", history, dict(steps=["file-air-sep"], elements=["Ar", "Ar"]), dict(cost=5)
    yield "history", history, dict(steps=["file-bright"], elements=["Ar", "Ar"]), dict(cost=5)
    yield "history", history, dict(steps=["file-default"]), dict(cost=5)
    yield "history", history, dict(steps=["file-default-both-air"]), dict(cost=5)
    yield "construct", construct, dict(elements=["Hg", "Ar"], request=["Ar", "Hg"]), dict(cost=5)
    yield "construct", construct, dict(elements=["Hg", "Ar", "Hg"], request="Hg"), dict(cost=6)
    for ne, nw, ni in ((2, 1, None), (1, 2, None), (2, 2, 1), (1, 1, 2), (3, 2, 2)):
        yield "rejected", rejected, dict(ne=ne, nw=nw, ni=ni), dict(cost=1)
    yield "through_calibrator", through_calibrator, dict(kinds=["list", "single-conv"]), dict(cost=1)
    yield "through_calibrator", through_calibrator, dict(kinds=["array-noint", "list"]), dict(cost=1)
    if tier == "thorough":
        yield "history", history, dict(steps=["file-both", "file", "list", "file-both-air"]), dict(cost=50)
        yield "history", history, dict(steps=["file-both-sep", "array-conv", "file-bright"], elements=["Ar", "Hg", "Ar"]), dict(cost=50)
        yield "history", history, dict(steps=["file-both", "clear", "file-both"], elements=["Hg", "Ar", "Hg"]), dict(cost=50)
        for s in ("array-noint", "tuple-conv", "array-conv-noint"):
            yield "history", history, dict(steps=["list", s, "single", s]), dict(cost=3)
