import itertools

import numpy as np
import scipy.interpolate

from vlib import ransac as R

PROPERTY = "C13"
BOUNDS = (
    "histories of up to 4 configuration calls (thorough 5) on calibrators with and without a spectrum, each call giving one, two or all "
    "settings of its group; every real value for numeric settings, both values for switches; pixel lists of 3-4 real pixels in ascending or mixed order; one or two fits of degree 1-2 of 3 peaks and 2-3 lines"
)
OUTSIDE = "longer histories; logger settings"
STUBS = "scipy.interpolate.interp1d is not called on symbolic pixel lists; sample fits and robust fits return chosen coefficients"

HOUGH = dict(
    num_slopes=("int", 1, 5000), xbins=("int", 1, 500), ybins=("int", 1, 500), min_wavelength=("real", 100, 9000),
    max_wavelength=("real", 100, 12000), range_tolerance=("real", 0, 2000), linearity_tolerance=("real", 0, 2000),
)
RANSAC = dict(
    sample_size=("int", 0, 50), top_n_candidate=("int", 0, 50), linear=("flag",), filter_close=("flag",), ransac_tolerance=("real", 0, 100),
    candidate_weighted=("flag",), hough_weight=("real", 0, 10), minimum_matches=("int", 0, 50), minimum_peak_utilisation=("real", 0, 1),
    minimum_fit_error=("real", 0, 1),
)
CAL = dict(pixel_list=("pixels",), plotting_library=("library",))
GROUPS = dict(hough=HOUGH, ransac=RANSAC, calibrator=CAL)
SETTER = dict(hough="set_hough_properties", ransac="set_ransac_properties", calibrator="set_calibrator_properties")
DEFAULTS = dict(
    num_slopes=2000, xbins=100, ybins=100, min_wavelength=3000.0, max_wavelength=9000.0, range_tolerance=500, linearity_tolerance=100,
    sample_size=5, top_n_candidate=5, linear=True, filter_close=False, ransac_tolerance=5, candidate_weighted=True, hough_weight=1.0,
    minimum_matches=0, minimum_peak_utilisation=0, minimum_fit_error=1e-4, plotting_library="matplotlib",
)


def value(h, name, spec):
    kind = spec[0]
    if kind == "int":
        return h.int(name, spec[1], spec[2])
    if kind == "real":
        return h.real(name, spec[1], spec[2])
    if kind == "flag":
        return h.flag(name)
    if kind == "library":
        return "plotly"
    n = 3 + len(name) % 2
    x = h.reals(name, n, 0, 5000)
    for a, b in zip(x[:-1], x[1:]):
        h.assume(b >= a + 1)
    # in the order given, whatever it is
    return x[1:][::-1] + x[:1] if name[1:2] in "135" else x


def check_state(h, cal, model, label):
    for k, v in model.items():
        if k == "pixel_list":
            got = h.list(np.asarray(cal.pixel_list) if not isinstance(cal.pixel_list, np.ndarray) else cal.pixel_list)
            h.check(len(got) == len(v), label + ": pixel_list")
            if len(got) == len(v):
                h.check(h.all([h.same(a, b) for a, b in zip(got, v)]), label + ": pixel_list")
        elif isinstance(v, str):
            h.check(getattr(cal, k) == v, "%s: %s" % (label, k))
        elif k in ("linear", "filter_close", "candidate_weighted"):
            h.check(h.iff(getattr(cal, k), v), "%s: %s" % (label, k))
        else:
            h.check(h.eq(getattr(cal, k), v), "%s: %s" % (label, k))
    lib = model["plotting_library"]
    h.check(cal.which_plotting_library() == lib, label + ": plotting library in use")
    px = model["pixel_list"]
    span = h.max(px) - h.min(px)
    w0, w1, rt, lt = (model[k] for k in ("min_wavelength", "max_wavelength", "range_tolerance", "linearity_tolerance"))
    h.check(h.eq(cal.min_intercept, w0 - rt), label + ": min_intercept")
    h.check(h.eq(cal.max_intercept, w0 + rt), label + ": max_intercept")
    h.check(h.eq(cal.min_slope * span, (w1 - rt - lt) - (w0 + lt), 1e-5), label + ": min_slope")
    h.check(h.eq(cal.max_slope * span, (w1 + rt + lt) - (w0 - rt - rt - lt), 1e-5), label + ": max_slope")


def start(h, base):
    from rascal.calibrator import Calibrator

    model = dict(DEFAULTS)
    if base == "spectrum":
        cal = Calibrator([3.0, 10.0], spectrum=h.reals("s", 14, 0, 10))
        model["pixel_list"] = list(range(14))
        model["num_pix"] = 14
    else:
        cal = Calibrator([3.0, 20.0])
        model["num_pix"] = 22.0
        model["pixel_list"] = list(range(22))
    return cal, model


class Interp:
    def __init__(self, *a, **k):
        pass

    def __call__(self, x):
        return x


def history(h, base, steps):
    h.stub(scipy.interpolate.interp1d, Interp)
    cal, model = start(h, base)
    check_state(h, cal, model, "new")
    for k, (group, names) in enumerate(steps):
        if group == "use":
            # switching the library is a configuration call as well
            getattr(cal, "use_" + names)()
            model["plotting_library"] = names
            check_state(h, cal, model, "after call %d" % k)
            continue
        spec = GROUPS[group]
        kw = {n: value(h, "v%d_%s" % (k, n), spec[n]) for n in names}
        getattr(cal, SETTER[group])(**kw)
        model.update(kw)
        check_state(h, cal, model, "after call %d" % k)
    h.reach()


def known_number(h, how):
    """the pixel list follows the number of pixels given later"""
    from rascal.calibrator import Calibrator

    cal = Calibrator([3.0, 20.0], spectrum=[1.0] * 30 if how == "spectrum" else None)
    n = h.choice("n", [40, 25])
    cal.set_calibrator_properties(num_pix=n, log_level="critical")
    h.check(cal.num_pix == n, "number of pixels is kept")
    if how == "explicit":
        # given explicitly, the list stays
        cal.set_calibrator_properties(pixel_list=[1.0, 2.0, 9.0], log_level="critical")
        cal.set_calibrator_properties(num_pix=n + 1, log_level="critical")
        h.check(cal.num_pix == n + 1, "number of pixels is kept")
        h.check(list(cal.pixel_list) == [1.0, 2.0, 9.0], "an explicit pixel list stays")
        h.reach()
        return
    ok = list(cal.pixel_list) == list(range(n))
    h.check(ok, "pixel list follows num_pix set later")
    h.reach()


def fitted(h, peaks, offsets, deg, good, brute=False, history=1):
    """a fit leaves the settings as they were given"""
    R.rotate(h)
    rec = R.Record(
        h, 4,
        lambda k, d: [h.real("f%d" % k, 3990, 4010), 20.0 if good else -1.0] + [0.0] * (d - 1),
        lambda k, d: [4000.0, 20.0] + [0.0] * (d - 1),
        stop="stop",
    )
    asked = dict(sample_size=h.choice("size", [1, 3, 50]), minimum_matches=h.choice("matches", [1, 2, 40]), top_n_candidate=3, filter_close=True, linear=True,
        ransac_tolerance=h.real("tol", 1, 20), candidate_weighted=False, hough_weight=2.0, minimum_peak_utilisation=0.1, minimum_fit_error=0.0)
    cal, lines, cand, tol = R.calibrator(h, peaks, offsets, ((20.0, 4000.0),), 4.0, ransac=asked, lines=list(offsets))
    for k in range(history):
        R.run(h, cal, tol, max_tries=1, fit_deg=deg, brute_force=brute)
        for n, v in asked.items():
            h.check(h.eq(getattr(cal, n), v), "after fit %d: %s" % (k, n))
    for n, v in dict(min_wavelength=4000.0, max_wavelength=4100.0, range_tolerance=500.0, linearity_tolerance=10.0, num_slopes=5, xbins=2, ybins=2).items():
        h.check(getattr(cal, n) == v, "after the fits: " + n)
    h.reach()


def both(h):
    """pixel list and number of pixels given together"""
    from rascal.calibrator import Calibrator

    h.stub(scipy.interpolate.interp1d, Interp)
    cal = Calibrator([3.0, 20.0])
    x = value(h, "x", ("pixels",))
    cal.set_calibrator_properties(num_pix=30, pixel_list=x)
    model = dict(DEFAULTS, num_pix=30, pixel_list=x)
    check_state(h, cal, model, "after call")
    h.reach()


def instances(tier):
    for base in ("spectrum", "peaks"):
        for g, spec in GROUPS.items():
            names = list(spec)
            yield "history", history, dict(base=base, steps=[(g, names)]), dict(cost=1)
            for i, n in enumerate(names):
                m = names[(i + 1) % len(names)]
                if base == "peaks" and tier == "quick" and i % 2:
                    continue
                yield "history", history, dict(base=base, steps=[(g, [n]), (g, [m]), (g, [])]), dict(cost=1)
                yield "history", history, dict(base=base, steps=[(g, names), (g, [n])]), dict(cost=1)
    cross = [
        [("hough", ["min_wavelength"]), ("ransac", ["sample_size"]), ("calibrator", ["pixel_list"]), ("hough", ["max_wavelength"])],
        [("calibrator", ["pixel_list"]), ("hough", ["range_tolerance"]), ("calibrator", ["plotting_library"]), ("ransac", [])],
        [("hough", list(HOUGH)), ("calibrator", ["pixel_list"]), ("hough", ["linearity_tolerance"]), ("calibrator", ["pixel_list"])],
        [("ransac", list(RANSAC)), ("calibrator", []), ("hough", []), ("ransac", ["linear", "hough_weight"])],
    ]
    cross += [
        [("use", "plotly"), ("calibrator", ["pixel_list"]), ("hough", ["xbins"]), ("use", "matplotlib"), ("calibrator", [])],
        [("calibrator", ["plotting_library"]), ("use", "matplotlib"), ("ransac", ["linear"]), ("calibrator", ["pixel_list"])],
    ]
    for s in cross:
        for base in ("spectrum", "peaks"):
            yield "history", history, dict(base=base, steps=s), dict(cost=2)
    singles = [(g, [n]) for g, spec in GROUPS.items() for n in spec]
    for a, b in itertools.permutations(singles, 2):
        if tier == "thorough" or a[0] != b[0] or a[0] == "hough":
            yield "history", history, dict(base="spectrum", steps=[("hough", list(HOUGH)), a, b, a, ("calibrator", [])]), dict(cost=2)
    yield "both", both, {}, dict(cost=1)
    p2, o2 = [2, 5, 9], [4040.0, 4100.0]
    p3, o3 = [2, 5, 9], [4040.0, 4100.0, 4180.0]
    for good in (True, False):
        yield "fitted", fitted, dict(peaks=p2, offsets=o2, deg=1, good=good), dict(cost=2)
        yield "fitted", fitted, dict(peaks=p3, offsets=o3, deg=2, good=good, history=2), dict(cost=2)
        yield "fitted", fitted, dict(peaks=p3, offsets=o3, deg=1, good=good, brute=True), dict(cost=2)
    yield "explicit", known_number, dict(how="explicit"), dict(cost=1)
    for how in ("spectrum", "peaks"):
        yield "num_pix_later", known_number, dict(how=how), dict(cost=1)
