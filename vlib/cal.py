"""building calibrators for the harnesses"""
import itertools

import numpy as np


class Stop(Exception):
    """raised by a stand-in when the harness has seen what it wants"""


def npmod():
    """numpy as the code under test sees it"""
    import rascal.calibrator as m

    return m.np


def make_atlas(h, wavelengths, elements=None):
    from rascal.atlas import Atlas

    a = Atlas()
    if len(wavelengths):
        a.add_user_atlas(elements or ["E%d" % i for i in range(len(wavelengths))], list(wavelengths))
    return a


def make(h, peaks, wavelengths=None, num_pix=1000, hough=None, ransac=None, spectrum=None, candidate_tolerance=10.0, constrain_poly=False):
    from rascal.calibrator import Calibrator

    cal = Calibrator(h.arr(peaks) if any(not isinstance(p, (int, float)) for p in peaks) else list(peaks), spectrum=spectrum)
    cal.set_calibrator_properties(num_pix=num_pix, pixel_list=np.arange(num_pix), log_level="critical")
    cal.set_hough_properties(**dict(dict(num_slopes=5, xbins=2, ybins=2, min_wavelength=4000.0, max_wavelength=6000.0), **(hough or {})))
    cal.set_ransac_properties(**(ransac or {}))
    if wavelengths is not None:
        cal.set_atlas(make_atlas(h, wavelengths), candidate_tolerance=candidate_tolerance, constrain_poly=constrain_poly)
    return cal


def polyval(h):
    """the polyval that fit() uses"""
    return npmod().polynomial.polynomial.polyval


def private(h, cal, name):
    if not hasattr(cal, name):
        h.skip("%s is not there" % name)
    return getattr(cal, name)


def assignment(h):
    """exact: any finite assignment that is no worse than all others"""
    import scipy.optimize as so

    real = so.linear_sum_assignment
    calls = []

    def lsa(cost, maximize=False):
        c = cost if isinstance(cost, np.ndarray) else np.asarray(cost)
        n, m = c.shape
        if maximize or n > m:
            h.skip("assignment problem of another form")
        v = [[c[i, j] for j in range(m)] for i in range(n)]
        fin = [[j for j in range(m) if not (isinstance(v[i][j], (float, np.floating)) and not np.isfinite(v[i][j]))] for i in range(n)]
        opts = [a for a in itertools.product(*fin) if len(set(a)) == n]
        if not opts:
            raise ValueError("cost matrix is infeasible")
        # equal columns are interchangeable: keep the first such assignment
        keep = {}
        for a in opts:
            keep.setdefault(tuple(v[i][j].e.get_id() if hasattr(v[i][j], "e") else float(v[i][j]) for i, j in enumerate(a)), a)
        opts = list(keep.values())
        tot = {a: sum((v[i][j] for i, j in enumerate(a)), 0.0) for a in opts}
        k = len(calls)
        calls.append(1)
        if h.symbolic:
            a = h.choice("assign%d" % k, opts)
            h.assume(h.all([tot[a] <= tot[b] for b in opts]))
            return np.arange(n), np.array(a)
        return real(cost)

    if h.symbolic:
        h.stub(real, lsa)
