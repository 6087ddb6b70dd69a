import re

import numpy as np
import scipy.interpolate
import scipy.signal

from vlib import cal as K
from vlib import catalogue as C
from vlib import engine as E
from vlib import plots
from vlib import symnp as S

PROPERTY = "C29"
BOUNDS = (
    "matplotlib and plotly; spectra of 4-6 values of any size (log mode: also negative ones), contiguous and gapped pixel lists, 2-3 peaks at any fraction of a "
    "pixel, 2-4 atlas lines and 1-3 matched pairs of any wavelength, every solution of degree 1 or 2, every tolerance; simulated arcs of 2-3 lines over up to 8 sampling points; "
    "all single figure types and several combinations, with and without a name"
)
OUTSIDE = "how matplotlib and plotly render what they are given; colours, titles, axis ranges; spectra with zeros in log mode; no matched peak at all"
STUBS = "matplotlib and plotly record the calls; scipy's interp1d is modelled exactly as piecewise linear; log10 is an uninterpreted function; numpy's percentile (axis ranges) is arbitrary; scipy's convolve is the identity"

def screen(h, lib, record, out, show):
    """put on the screen, and returned as json, when asked to"""
    h.check(plots.shown(record) == (show is not False), "shown exactly when asked to")
    if lib == "plotly":
        h.check((getattr(out, "kind", None) == "to_json") == (show is True), "returned as json exactly when asked to")


def ask(kw, show):
    """show: True, False, or None for the default"""
    if show:
        kw.update(display=True, return_jsonstring=True)
    if show is None:
        del kw["display"]


NAMES = {"jpg", "png", "svg", "pdf"}


def near(h, a, b, tol=1e-6):
    """same shape and values"""
    if a is None or b is None or isinstance(a, str) or isinstance(b, str):
        return False
    la, lb = hasattr(a, "__len__"), hasattr(b, "__len__")
    if la != lb:
        return False
    if not la:
        if hasattr(a, "reshape") and not isinstance(a, (E.Sym, np.generic)):
            a = a.reshape(-1)[0]
        return h.eq(a, b, tol)
    a, b = h.list(a), h.list(b)
    if len(a) != len(b):
        return False
    return h.all([h.eq(u, v, tol) for u, v in zip(a, b)])


class Piecewise:
    """scipy's interp1d with extrapolation, exactly"""

    def __init__(self, x, y, *a, **k):
        self.x, self.y = [float(v) for v in x], [float(v) for v in y]
        o = np.argsort(self.x)
        self.x, self.y = [self.x[i] for i in o], [self.y[i] for i in o]

    def one(self, v):
        c = E.ctx()
        x, y = self.x, self.y
        r = None
        for i in range(len(x) - 1, 0, -1):
            s = y[i - 1] + (v - x[i - 1]) * ((y[i] - y[i - 1]) / (x[i] - x[i - 1]))
            r = s if r is None else c.ite(v <= x[i], s, r)
        return r

    def __call__(self, v):
        if hasattr(v, "__len__"):
            return E.CTX.arr([self.one(u) for u in v])
        return S.symarray([self.one(v)]).reshape(()) if E.CTX.symbolic else np.array(self.one(v))


def freeze(v):
    if isinstance(v, np.ndarray):
        return ("array", v.shape, [freeze(x) for x in S.plain(v).ravel()])
    if isinstance(v, (list, tuple)):
        return ("list", None, [freeze(x) for x in v])
    if isinstance(v, dict):
        return ("dict", tuple(v), [freeze(x) for x in v.values()])
    if v is None or isinstance(v, (int, float, str, bool, np.generic, E.Sym)):
        return v
    if type(v).__module__.startswith("rascal"):
        return ("object", tuple(vars(v)), [freeze(x) for x in vars(v).values()])
    return ("id", id(v), [])


def unchanged(h, a, b):
    if isinstance(a, tuple) or isinstance(b, tuple):
        if not (isinstance(a, tuple) and isinstance(b, tuple)) or a[:2] != b[:2] or len(a[2]) != len(b[2]):
            return False
        return h.all([unchanged(h, x, y) for x, y in zip(a[2], b[2])])
    return h.same(a, b)


def make(h, lib, pixels, peaks, spectrum, lines, elements):
    from rascal.calibrator import Calibrator

    if h.symbolic:
        h.stub(scipy.interpolate.interp1d, Piecewise)
        # only for the range of an axis
        h.stub(np.percentile, lambda a, q, *x, **k: h.list(a)[0])
    cal = Calibrator(h.arr(peaks), spectrum=[0.0] * len(pixels))
    cal.spectrum = spectrum
    cal.set_calibrator_properties(num_pix=len(pixels), pixel_list=pixels, plotting_library=lib, log_level="critical")
    cal.set_hough_properties(num_slopes=5, xbins=2, ybins=2, min_wavelength=4000.0, max_wavelength=6000.0, range_tolerance=400.0, linearity_tolerance=10.0)
    cal.set_atlas(K.make_atlas(h, lines, elements))
    return cal


def saving(h, lib, kind, types, name):
    """keyword arguments, expected files"""
    kw = dict(display=False)
    if types is None:
        return kw, []
    kw["save_fig"] = True
    kw["fig_type"] = types
    if name is not None:
        kw["filename"] = name
    base = name if name is not None else {"arc": "rascal_arc", "fit": "rascal_solution", "space": "rascal_hough_search_space", "lines": "rascal_arc"}[kind]
    want = []
    for t in types.split("+"):
        if t in NAMES:
            want.append((base + "." + t, t if lib == "matplotlib" else "write_image"))
        elif t == "iframe" and lib == "plotly":
            want.append((base + "." + t, "write_html"))
    return kw, want


def draws(log, *names):
    return [c for c in log if c.name in names]


def lines_at(log):
    """x of every vertical line"""
    out = []
    for c in draws(log, "vlines", "axvline"):
        x = c.get(0, "x")
        out.append((c, list(x) if hasattr(x, "__len__") else [x]))
    return out


def drawn(h, log, x, y, *names):
    return h.any([h.all([near(h, c.get(0, "x"), x), near(h, c.get(1, "y"), y)]) for c in draws(log, *(names or ("plot", "scatter", "step", "errorbar")))])


def wave_of(h, coef, xs):
    return [h.poly(coef, x) for x in xs]


def setup(h, lib, pixels, at, n_lines, deg, positive=True, as_list=False):
    n = len(pixels)
    if positive:
        values = h.reals("s", n, 0.5, 1000)
    else:
        values = [h.real("s%d" % i, 0.5, 1000) if i % 2 else h.real("s%d" % i, -50, -0.5) for i in range(n)]
    spectrum = list(values) if as_list else h.arr(values)
    peaks = [float(pixels[k]) + h.real("at%d" % k, 0.02, 0.95) for k in at]
    lines = [4000.0 + h.real("w0", 0, 300)]
    for i in range(1, n_lines):
        lines.append(lines[-1] + h.real("w%d" % i, 1, 500))
    coef = [h.real("c0", 3900, 4100), h.real("c1", 1, 100)] + ([h.real("c2", -0.1, 0.1)] if deg > 1 else [])
    elements = ["E%d" % i for i in range(n_lines)]
    cal = make(h, lib, pixels, peaks, None, lines, elements)
    return cal, values, spectrum, peaks, lines, coef, elements


def logged(h, values):
    np_ = K.npmod()
    return h.list(np_.log10(h.arr([h.ite(v < 0, 1e-100, v) for v in values])))


def fit(h, lib, pixels, at, matched, n_lines=3, deg=1, log=False, own=False, spectrum=True, types=None, name=None, as_list=False, atlas=True, negative=False, plain=False, show=False):
    """matched: [(peak number, line number)]"""
    record = plots.matplotlib(h) if lib == "matplotlib" else plots.plotly(h)
    cal, values, spec, peaks, lines, coef, elements = setup(h, lib, pixels, at, n_lines, deg, not negative, as_list)
    if own:
        cal.spectrum = spec
    cal.matched_peaks = h.arr([peaks[i] for i, j in matched])
    cal.matched_atlas = h.arr([lines[j] for i, j in matched])
    if plain:
        cal.matched_peaks, cal.matched_atlas = [[v if h.symbolic else float(v) for v in h.list(c)] for c in (cal.matched_peaks, cal.matched_atlas)]
    tol = h.real("tol", 0.01, 1000)
    kw, want = saving(h, lib, "fit", types, name)
    before = freeze(cal)
    carr = h.arr(coef)
    fc, fs = freeze(carr), freeze(spec)
    if spectrum and not own:
        kw["spectrum"] = spec
    wave = wave_of(h, coef, pixels)
    pw = wave_of(h, coef, peaks)
    chosen = None
    if lib == "plotly":
        # the peaks within the tolerance of a line
        diffs = []
        for p in pw:
            d = lines[0] - p
            for w in lines[1:]:
                d = h.ite(abs(w - p) < abs(d), w - p, d)
            for a in range(n_lines):
                for b in range(a):
                    h.assume(h.not_(h.eq(abs(lines[a] - p), abs(lines[b] - p), 1e-6)))
            h.assume(h.not_(h.eq(abs(d), tol, 1e-6)))
            diffs.append(d)
        chosen = [i for i, d in enumerate(diffs) if bool(abs(d) < tol)]
        h.assume(len(chosen) > 0)
        kw["tolerance"] = tol
    ask(kw, show)
    out = cal.plot_fit(carr, plot_atlas=atlas, log_spectrum=log, **kw)
    h.check(unchanged(h, before, freeze(cal)), "the calibrator is as before")
    h.check(h.all([unchanged(h, fc, freeze(carr)), unchanged(h, fs, freeze(spec))]), "the caller's data are as before")
    h.check(plots.saved(record) == want, "the requested files are written")
    screen(h, lib, record, out, show)
    shown = logged(h, values) if log else values
    if lib == "matplotlib":
        fpeaks = [peaks[i] for i, j in matched]
        fwave = [pw[i] for i, j in matched]
        res = [lines[j] - pw[i] for i, j in matched]
        vl = lines_at(record)
        if spectrum:
            h.check(drawn(h, record, wave, shown, "plot", "step"), "the spectrum is drawn over the wavelengths")
            h.check(h.any([h.all([near(h, x, pw), near(h, c.get(1, "ymin"), [shown[k] for k in at])]) for c, x in vl]), "the detected peaks are marked above the spectrum")
            for w in fwave:
                h.check(h.any([h.eq(v, w, 1e-6) for c, x in vl if len(x) == 1 for v in x]), "each fitted peak is marked")
        if atlas:
            h.check(h.any([near(h, x, lines) for c, x in vl]), "the atlas lines are marked")
        else:
            h.check(sum(len(x) for c, x in vl) <= (len(peaks) + len(matched) if spectrum else 0), "no atlas lines are marked")
        texts = draws(record, "text", "annotate")
        h.check(len(texts) == len(matched), "a label for each fitted line")
        if len(texts) == len(matched):
            for c, (i, j) in zip(texts, matched):
                t = c.get(2, "s", "text")
                h.check(str(t).split(":")[0] == elements[j], "labelled with its element")
                h.check(h.abs(c.get(0, "x") - lines[j]) <= 10, "labels are next to the line")
                h.check(says(h, t, lines[j]), "labelled with its wavelength")
        flat = [(c, c.get(0, "y")) for c in draws(record, "hlines", "axhline")]
        sc = [c for c in draws(record, "scatter", "plot") if bool(len(h.list(c.get(0, "x"))) == len(fwave))]
        h.check(h.any([h.all([near(h, c.get(0, "x"), fwave), near(h, c.get(1, "y"), res)]) for c in sc]), "the residuals are drawn")
        h.check(drawn(h, record, fwave, fpeaks), "the fitted peaks are drawn on the solution")
        h.check(drawn(h, record, wave, [float(p) for p in pixels]), "the solution is drawn")
        ys = [(y, True) for c, y in flat if not hasattr(y, "__len__")]
    else:
        fpeaks = [peaks[i] for i in chosen]
        fwave = [pw[i] for i in chosen]
        res = [diffs[i] for i in chosen]
        tr = [c.args[0].kw for c in record if c.name == "add_trace"]

        def trace(x, y):
            return h.any([h.all([near(h, t.get("x"), x), near(h, t.get("y"), y)]) for t in tr])

        if spectrum:
            h.check(trace(wave, shown), "the spectrum is drawn over the wavelengths")
            h.check(trace(fwave, [shown[at[i]] for i in chosen]), "the fitted peaks are marked on the spectrum")
        shapes = [c.kw for c in record if c.name == "add_shape"]
        h.check(len(shapes) == len(peaks), "a mark for each peak")
        for w in pw:
            h.check(h.any([h.all([h.eq(s["x0"], w, 1e-6), h.eq(s["x1"], w, 1e-6)]) for s in shapes]), "the detected peaks are marked")
        h.check(trace(fwave, res), "the residuals are drawn")
        h.check(trace(fwave, fpeaks), "the fitted peaks are drawn on the solution")
        h.check(trace(wave, [float(p) for p in pixels]), "the solution is drawn")
        kinds = [layout_of(c.kw) for c in record if c.name == "update_layout"]
        h.check(not any("log" in k for k in kinds) if log else True, "logarithms are drawn on a linear scale")
        ys = []
        for t in tr:
            y = t.get("y")
            if y is not None and hasattr(y, "__len__") and len(y) == 2 and len(h.list(t["x"])) == 2:
                a, b = h.list(y)
                ys.append((a, h.same(a, b)))
    h.check(h.any([h.all([ok, y >= 0, sq(h, y, res)]) for y, ok in ys]), "the rms is that of the residuals")
    h.check(h.any([h.all([ok, y <= 0, sq(h, y, res)]) for y, ok in ys]), "the rms is drawn on both sides")
    h.reach()


def sq(h, y, res):
    tot = sum((r * r for r in res), 0.0)
    d = y * y * len(res) - tot
    if h.symbolic:
        return h.all([d <= 1e-6, d >= -1e-6])
    return abs(d) <= 1e-6 * (1 + abs(tot))


def layout_of(kw):
    return [v.get("type") for v in kw.values() if isinstance(v, dict)]


def says(h, text, v):
    """the text states the value to two digits"""
    m = re.match(r"^\s*[^:]*:\s*(<sym\d+>|[-+0-9.e]+)\s*$", str(text))
    if not m:
        return False
    t = m.group(1)
    if t.startswith("<sym"):
        return h.same(E.FORMATTED[t], v)
    return abs(float(t) - float(v)) <= 0.00501


def arc(h, lib, n=5, log=False, form="array", types=None, name=None, pixels=None, show=False):
    record = plots.matplotlib(h) if lib == "matplotlib" else plots.plotly(h)
    values = h.reals("s", n, 0.5, 1000)
    spec = {"array": h.arr(values), "list": list(values), "none": None}[form]
    peaks = h.reals("p", 2, 0, n - 1)
    cal = make(h, lib, list(range(n)), peaks, None, [4100.0, 4200.0], None)
    cal.spectrum = spec
    kw, want = saving(h, lib, "arc", types, name)
    if pixels is not None:
        kw["pixel_list"] = list(pixels)
    before = freeze(cal)
    ask(kw, show)
    out = cal.plot_arc(log_spectrum=log, **kw)
    h.check(unchanged(h, before, freeze(cal)), "the calibrator is as before")
    h.check(plots.saved(record) == want, "the requested files are written")
    screen(h, lib, record, out, show)
    xs = [float(v) for v in (pixels if pixels is not None else range(n))]
    if form != "none":
        top = h.max(values)
        ys = [v / top for v in values]
        if log:
            ys = h.list(K.npmod().log10(h.arr(values) / top))
    if lib == "matplotlib":
        if form != "none":
            h.check(drawn(h, record, xs, ys, "plot", "step"), "the spectrum is drawn, normalised")
            h.check(h.any([near(h, x, peaks) for c, x in lines_at(record)]), "the detected peaks are marked")
    else:
        tr = [c.args[0].kw for c in record if c.name == "add_trace"]
        if form != "none":
            h.check(h.any([h.all([near(h, t.get("x"), xs), near(h, t.get("y"), ys)]) for t in tr]), "the spectrum is drawn, normalised")
        shapes = [c.kw for c in record if c.name == "add_shape"]
        h.check(len(shapes) == len(peaks), "a mark for each peak")
        for w in peaks:
            h.check(h.any([h.all([h.eq(s["x0"], w, 1e-6), h.eq(s["x1"], w, 1e-6)]) for s in shapes]), "the detected peaks are marked")
    h.reach()


def space(h, lib, coef=True, types=None, name=None, pixels=(0, 1, 2, 3, 10), top=3, weighted=True, show=False):
    record = plots.matplotlib(h) if lib == "matplotlib" else plots.plotly(h)
    peaks = [1.0, 2.0, 10.0]
    lines = [4300.0 + h.real("w0", 0, 50), 4600.0 + h.real("w1", 0, 50)]
    cal = make(h, lib, list(pixels), peaks, None, lines, None)
    rt = h.real("rt", 1, 300)
    lo, hi = h.real("lo", 3900, 4200), h.real("hi", 5000, 6000)
    cal.min_wavelength, cal.max_wavelength, cal.range_tolerance = lo, hi, rt
    arcs = [(p, w) for p in peaks[:2] for w in lines]
    cal.pairs = h.arr([v for pw in arcs for v in pw]).reshape(-1, 2)
    cands = [([1.0, 2.0], [lines[0], lines[1]], [h.real("g0", 0.1, 1), h.real("g1", 0.1, 1)]), ([1.0], [lines[1]], [h.real("g2", 0.1, 1)])]
    cal.candidates = [tuple(h.arr(v) for v in c) for c in cands]
    kw, want = saving(h, lib, "space", types, name)
    if coef:
        kw["fit_coeff"] = [h.real("c0", 3900, 4100), h.real("c1", 1, 100)]
    get = K.private(h, cal, "_get_most_common_candidates")
    bx, by = get(cal.candidates, top_n_candidate=top, weighted=weighted)
    before = freeze(cal)
    ask(kw, show)
    out = cal.plot_search_space(top_n_candidate=top, weighted=weighted, **kw)
    h.check(unchanged(h, before, freeze(cal)), "the calibrator is as before")
    h.check(plots.saved(record) == want, "the requested files are written")
    screen(h, lib, record, out, show)
    last = float(max(pixels))
    xs = [float(v) for v in pixels]
    if lib == "matplotlib":
        def has(x, y):
            return drawn(h, record, x, y)

        def level(v):
            return h.any([h.all([near(h, c.get(0, "y"), v), near(h, c.get(1, "xmin"), 0.0), near(h, c.get(2, "xmax"), last)]) for c in draws(record, "hlines")])
    else:
        tr = [c.args[0].kw for c in record if c.name == "add_trace"]

        def has(x, y):
            return h.any([h.all([near(h, t.get("x"), x), near(h, t.get("y"), y)]) for t in tr])

        def level(v):
            return has([0.0, last], [v, v])
    h.check(has([p for p, w in arcs], [w for p, w in arcs]), "all pairs are drawn")
    h.check(has([p for c in cands for p in c[0]], [w for c in cands for w in c[1]]), "the candidates are drawn")
    h.check(has(h.list(bx), h.list(by)), "the best candidates are drawn")
    for v in (lo, lo - rt, lo + rt, hi, hi - rt, hi + rt):
        h.check(level(v), "the limits and their tolerances are drawn")
    for d in (0.0, rt, -rt):
        h.check(has(xs, [lo + d + (hi - lo) / last * x for x in xs]), "the linear relation and its tolerance are drawn")
    if coef:
        h.check(has(peaks, [h.poly(kw["fit_coeff"], p) for p in peaks]), "the solution is drawn at the peaks")
    h.reach()


def simulated(h, elements, request, points=5, types=None, name=None, label=False, minimum=0.0, log=False):
    """the simulated arc: lines fall on the sampling points"""
    from rascal import plotting

    record = plots.matplotlib(h)
    ll = C.LineList(h, elements, 4000.0, 4000.001 * 1 + 0.001 * points)
    lo, hi = 4000.0, round(4000.0 + 0.001 * points, 3)
    given = []

    def convolve(a, b, mode="full", **k):
        given.append((h.list(a), h.list(b), mode))
        return a

    for w in ll.w:
        h.assume(h.all([w > lo, w < hi]))
    h.stub(scipy.signal.convolve, convolve)
    # the sampling point of each line
    cells = []
    for w in ll.w:
        c = None
        for k in range(points + 1):
            v = lo + 0.001 * k
            if bool(h.all([w > v - 0.0005 + 1e-6, w < v + 0.0005 - 1e-6])):
                c = k
                break
        h.assume(c is not None)
        cells.append(c)
    h.distinct(ll.w)
    for i in ll.i:
        h.assume(i > 0.01)
    kw, want = saving(h, "matplotlib", "lines", types, name)
    plotting.plot_calibration_lines(
        elements=list(request), linelist=ll.path, min_atlas_wavelength=lo, max_atlas_wavelength=hi, min_intensity=minimum, vacuum=True, label=label, log=log, **kw
    )
    ll.done()
    h.check(len(given) == 1, "one simulated arc")
    h.check(plots.saved(record) == want, "the requested files are written")
    sel = [r.lower() for r in request]
    use = [k for k, e in enumerate(ll.e) if e.lower() in sel]
    if not given:
        return
    arc_ = given[0][0]
    for c in range(points + 1):
        tot = sum((ll.i[k] for k in use if cells[k] == c), 0.0)
        h.check(h.eq(arc_[c], tot, 1e-6), "each line adds its intensity at its wavelength")
    for c in range(points + 1, len(arc_)):
        h.check(h.eq(arc_[c], 0.0, 1e-9), "nothing elsewhere")
    bright = [k for k in use if bool(ll.i[k] >= minimum)]
    texts = draws(record, "text", "annotate")
    h.check(len(texts) == (len(bright) if label else 0), "a label for each line that is bright enough, when asked for")
    if label:
        for k in bright:
            h.check(h.any([h.all([str(c.get(2, "s", "text")).lower().startswith(ll.e[k].lower()), says(h, c.get(2, "s", "text"), ll.w[k]), h.eq(c.get(0, "x"), ll.w[k], 1e-6)]) for c in texts]), "each bright line is labelled with its element and wavelength")
            h.check(h.any([h.eq(v, ll.w[k], 1e-6) for c, x in lines_at(record) for v in x]), "each label's line is drawn")
    h.check(h.any([h.all([len(h.list(c.get(0))) == len(arc_), near(h, c.get(1), arc_)]) for c in draws(record, "plot") if c.get(1) is not None]), "the arc is drawn")
    stems = draws(record, "stem")
    h.check(len(stems) == len(request), "stems for each element")
    if len(stems) == len(request):
        for c, r in zip(stems, request):
            got = list(zip(h.list(c.get(0)), h.list(c.get(1))))
            mine = [k for k in use if ll.e[k].lower() == r.lower()]
            seen = [h.ite(ll.i[k] >= minimum, 1, 0) for k in mine]
            h.check(h.eq(len(got), sum(seen, 0.0), 1e-9), "a stem for each line that is bright enough")
            for k in mine:
                h.check(h.implies(ll.i[k] >= minimum, h.any([h.all([h.eq(w, ll.w[k], 1e-6), h.eq(i, ll.i[k], 1e-6)]) for w, i in got])), "stems are at the lines, as high as they are bright")
    h.reach()


GAP = [0, 1, 2, 3, 10, 11]


def instances(tier):
    for lib in ("matplotlib", "plotly"):
        yield "fit", fit, dict(lib=lib, pixels=GAP, at=[1, 4], matched=[(0, 0), (1, 2)]), dict(cost=2)
        yield "fit", fit, dict(lib=lib, pixels=GAP, at=[1, 4], matched=[(0, 0)], own=True, as_list=True, types="png+svg", deg=2, n_lines=2), dict(cost=2)
        yield "fit", fit, dict(lib=lib, pixels=list(range(5)), at=[0, 2, 3], matched=[(0, 0), (2, 1)], n_lines=2, log=True, negative=True, types="pdf", name="out/x"), dict(cost=2)
        yield "fit", fit, dict(lib=lib, pixels=list(range(4)), at=[1], matched=[(0, 1)], n_lines=2, spectrum=False, atlas=False, types="iframe+jpg", name="a.b"), dict(cost=2)
        yield "fit", fit, dict(lib=lib, pixels=list(range(4)), at=[1, 2], matched=[(0, 0), (1, 1)], n_lines=2, plain=True, show=True), dict(cost=2)
        for log in (False, True):
            yield "arc", arc, dict(lib=lib, log=log), dict(cost=2)
            yield "arc", arc, dict(lib=lib, log=log, form="list", types="jpg+iframe+png", name="y", pixels=[0, 1, 2, 7, 8]), dict(cost=2)
        yield "arc", arc, dict(lib=lib, form="none", types="svg", show=True), dict(cost=2)
        yield "space", space, dict(lib=lib), dict(cost=2)
        yield "space", space, dict(lib=lib, show=None), dict(cost=2)
        yield "arc", arc, dict(lib=lib, show=None, types="png"), dict(cost=2)
        yield "fit", fit, dict(lib=lib, pixels=list(range(4)), at=[1], matched=[(0, 0)], n_lines=2, show=None), dict(cost=2)
        yield "space", space, dict(lib=lib, coef=False, types="png+pdf+iframe", top=1, weighted=False, show=True), dict(cost=2)
    yield "simulated", simulated, dict(elements=["Xe", "Xe"], request=["Xe"]), dict(cost=5)
    yield "simulated", simulated, dict(elements=["Xe", "He"], request=["He", "Xe"], minimum=50.0, label=True, types="png", name="z"), dict(cost=5)
    yield "simulated", simulated, dict(elements=["xe", "He", "Xe"], request=["XE"], points=3, types="svg+jpg", log=True), dict(cost=5)
