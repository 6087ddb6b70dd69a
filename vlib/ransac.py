"""fit() under observation: every polynomial fit's outcome is arbitrary and
recorded together with the data it was given"""
import numpy as np

from . import cal as K
from . import symnp as S


class Record:
    def __init__(self, h, limit, coef, robust, stop="drop"):
        """limit: sample fits per run; coef(k, deg)/robust(k, deg): outcome"""
        self.h = h
        self.limit = limit
        self.coef = coef
        self.rcoef = robust
        self.fits = []
        self.robust = []
        self.stop = stop
        self.judge = None
        self.forced = 0
        h.stub(np.polynomial.polynomial.polyfit, self.polyfit)
        h.stub(np.polynomial.legendre.legfit, lambda x, y, deg, *a, **k: self.series(x, y, deg, 1.5, 2.0))
        h.stub(np.polynomial.chebyshev.chebfit, lambda x, y, deg, *a, **k: self.series(x, y, deg, 2.0, 1.0))
        import rascal.models as m

        if not hasattr(m, "robust_polyfit"):
            h.skip("models.robust_polyfit is not there")
        h.stub(m.robust_polyfit, self.robust_polyfit)

    def polyfit(self, x, y, deg, *a, **k):
        h = self.h
        n = len(self.fits)
        if n >= self.limit:
            if self.forced or (self.judge is not None and bool(self.judge())):
                # an acceptable sample was turned down: all others are bad
                self.forced += 1
                return h.arr([4000.0, -1.0] + [0.0] * (int(deg) - 1))
            if self.stop == "drop":
                # beyond the bound
                h.assume(False)
            raise K.Stop()
        c = self.coef(n, int(deg))
        self.fits.append(dict(x=h.list(np.asarray(x) if not isinstance(x, np.ndarray) else x), y=list(y) if not isinstance(y, np.ndarray) else h.list(y), deg=int(deg), coef=c, robust=len(self.robust)))
        return h.arr(c)

    def series(self, x, y, deg, top, down):
        """the same outcome in a Legendre or Chebyshev series, up to degree 2"""
        c = self.h.list(self.polyfit(x, y, deg))
        assert len(c) <= 3
        if len(c) == 3:
            c[2] = c[2] / top
            c[0] = c[0] + c[2] / down
        return self.h.arr(c)

    def robust_polyfit(self, x, y, degree=3, x0=None, **k):
        h = self.h
        n = len(self.robust)
        c = self.rcoef(n, int(degree))
        self.robust.append(dict(x=h.list(x), y=h.list(y), deg=int(degree), coef=c, sample=len(self.fits) - 1))
        if c is None:
            raise np.linalg.LinAlgError("no fit")
        return h.arr(c)


class Spline:
    """stand-in for the interpolated Hough density: arbitrary positive weights"""

    seen = []

    def __init__(self, h, weight, npix):
        self.h, self.weight, self.n, self.calls, self.made = h, weight, npix, [], []

    def __call__(self, x, y, z, *a, **k):
        self.made.append((x, y, z))
        return self.evaluate

    def evaluate(self, gx, gy, *a, **k):
        h = self.h
        w = self.weight(len(self.calls))
        self.calls.append((h.list(gx), h.list(gy), w))
        return h.arr([w / len(gx)] * len(gx))


def calibrator(h, peaks, offsets, hough=((2.0, 4000.0),), spread=3.0, npix=18, lines=None, ransac=None, rt=500.0, candidate=None):
    """candidates are settled by concrete trial lines: line i lies within
    `spread` of offsets[i].  Returns the calibrator, the lines and the
    candidates {peak: [line numbers]}"""
    from rascal.calibrator import Calibrator

    if lines is None:
        lines = [o + h.real("d%d" % i, -spread, spread) for i, o in enumerate(offsets)]
        for i, a in enumerate(offsets):
            for j in range(i):
                if abs(a - offsets[j]) <= 2 * spread:
                    h.assume(h.any([lines[i] - lines[j] > 0.01, lines[j] - lines[i] > 0.01]))
    cal = Calibrator([float(p) for p in peaks], spectrum=[0.0] * npix)
    cal.set_calibrator_properties(num_pix=npix, pixel_list=list(range(npix)), log_level="critical")
    cal.set_hough_properties(num_slopes=5, xbins=2, ybins=2, min_wavelength=4000.0, max_wavelength=4100.0, range_tolerance=rt, linearity_tolerance=10.0)
    cal.set_ransac_properties(**dict(dict(filter_close=False, linear=True, minimum_matches=1, minimum_peak_utilisation=0.0, minimum_fit_error=0.0, ransac_tolerance=5.0, sample_size=2, top_n_candidate=50), **(ransac or {})))
    cal.set_atlas(K.make_atlas(h, lines))
    cal.hough_lines = [list(x) for x in hough]
    cal.hough_points = K.npmod().zeros((1, 2))
    cand = {}
    tol = 2 * spread
    for p in peaks:
        near = [min(abs(g * p + c - o) for g, c in hough) for o in offsets]
        assert not any(spread < d <= 3 * spread for d in near), "candidates must be settled"
        ws = [i for i, d in enumerate(near) if d <= spread]
        if ws:
            cand[float(p)] = ws
    return cal, lines, cand, tol


def rotate(h):
    """draws take turns through what there is to draw from, instead of any"""
    h.rnd.rotate = True


def run(h, cal, tol, **kw):
    """(result, error)"""
    try:
        return cal.fit(progress=False, candidate_tolerance=tol, **dict(dict(fit_tolerance=float("inf")), **kw)), None
    except (K.Stop, AssertionError) as e:
        return None, e


def increasing(h, coef, peaks):
    """the polynomial increases over the detected peaks with the margin"""
    span = max(peaks) - min(peaks)
    xs = np.arange(min(peaks) - 0.2 * span, max(peaks) + 0.2 * span, 1)
    v = [h.poly(coef, float(x)) for x in xs]
    return h.all([b > a for a, b in zip(v[:-1], v[1:])])


def match(h, cand, lines, coef):
    """reference one-to-one matching: list of (peak, line number, chosen by
    the peak, wins the line, error), exact unless errors tie"""
    out = []
    err = {(p, i): abs(h.poly(coef, p) - lines[i]) for p, ws in cand.items() for i in ws}
    chosen = {(p, i): h.all([err[p, i] < err[p, k] for k in ws if k != i]) for p, ws in cand.items() for i in ws}
    for (p, i), e in err.items():
        wins = h.all([chosen[p, i]] + [h.implies(chosen[q, i], e < err[q, i]) for q in cand if q != p and i in cand[q]])
        out.append((p, i, chosen[p, i], wins, e))
    return out


def acceptable(h, cand, lines, f, peaks, deg, tol_r, matches=1, rt=500.0):
    """the sample fit meets every constraint (minimum fit error 0)"""
    c = f["coef"]
    no_ties(h, cand, lines, c)
    m = match(h, cand, lines, c)
    for p, i, chosen, wins, e in m:
        h.assume(h.not_(h.eq(e, tol_r, 1e-6)))
    n = h.count([h.all([wins, e < tol_r]) for p, i, chosen, wins, e in m])
    return h.all([c[0] >= 4000 - rt, c[0] <= 4000 + rt, increasing(h, c, peaks), n >= deg + 1, n >= matches])


def no_ties(h, cand, lines, coef):
    err = {(p, i): abs(h.poly(coef, p) - lines[i]) for p, ws in cand.items() for i in ws}
    for p, ws in cand.items():
        for a in ws:
            for b in ws:
                if a < b:
                    h.assume(h.not_(h.eq(err[p, a], err[p, b], 1e-6)))
    for i in range(len(lines)):
        ps = [p for p in cand if i in cand[p]]
        for a in ps:
            for b in ps:
                if a < b:
                    h.assume(h.not_(h.eq(err[a, i], err[b, i], 1e-6)))


def rms(h, xs):
    return (sum(x * x for x in xs) / len(xs)) ** 0.5 if xs else None
