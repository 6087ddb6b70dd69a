"""A line list file with symbolic wavelengths and intensities (C01, C02, C05)"""
import os

import numpy as np

from . import engine as E
from . import symnp as S

# not standard conditions, so that a swapped or ignored argument shows
TEMPERATURE, PRESSURE, HUMIDITY = 285.0, 90000.0, 40.0


def saturation_pressure(t):
    """IAPWS saturation vapour pressure in Pa, t in Celsius (reference)"""
    k = [1.16705214528e03, -7.24213167032e05, -1.70738469401e01, 1.20208247025e04, -3.23255503223e06,
         1.49151086135e01, -4.82326573616e03, 4.05113405421e05, -2.38555575678e-01, 6.50175348448e02]
    T = t + 273.15
    om = T + k[8] / (T - k[9])
    a = om * om + k[0] * om + k[1]
    b = k[2] * om * om + k[3] * om + k[4]
    c = k[5] * om * om + k[6] * om + k[7]
    return 1e6 * (2 * c / (-b + (b * b - 4 * a * c) ** 0.5)) ** 4


def fake_index(t, p, e):
    """a made-up refractive index that tells its arguments apart"""
    return 1.1 + 1e-3 * t + 1e-6 * p + 1e-5 * e


def index():
    t = TEMPERATURE - 273.15
    return fake_index(t, PRESSURE, HUMIDITY / 100 * saturation_pressure(t))


def stub_refraction(h):
    real = h.func("rascal.util", "edlen_refraction")

    def edlen(wavelengths, temperature, pressure, vapour_partial_pressure):
        return np_like(wavelengths, fake_index(temperature, pressure, vapour_partial_pressure), h)

    h.stub(real, edlen)


def np_like(w, n, h):
    a = np.array(w, dtype=object if h.symbolic else float)
    return np.full(a.shape, n) if a.ndim else n


def short(v):
    """the value that is left of v in a 12 character field"""
    t = repr(float(v))
    return t if len(t) <= 12 else t[:12] if "e" not in t else "%.7f" % v


def width(dtype):
    """characters that a field of this type holds, None for all"""
    t = np.dtype(getattr(dtype, "_t", dtype))
    if t.kind not in "US":
        return None
    return t.itemsize // (4 if t.kind == "U" else 1) or None


class LineList:
    """long: numbers are written as by np.savetxt, in 24 characters"""

    def __init__(self, h, elements, lo=1000, hi=20000, long=False):
        self.long = long
        self.h = h
        n = len(elements)
        self.e = list(elements)
        self.w = h.reals("w", n, lo, hi)
        self.i = h.reals("i", n, 1 if long else 0, 10000)
        if not h.symbolic and not long:
            self.w = [float(short(v)) for v in self.w]
            self.i = [float(short(v)) for v in self.i]
        self.read = 0
        self.path = os.path.join(h.tmpdir, "lines.csv")
        with open(self.path, "w") as f:
            for e, w, i in zip(self.e, self.w, self.i):
                if h.symbolic:
                    w = i = 1
                if long:
                    f.write("%s,%.18e,%.18e\n" % (e, w, i))
                else:
                    f.write("%s,%s,%s\n" % (e, short(w), short(i)))
        if h.symbolic:
            h.stub(np.loadtxt, self._loadtxt)
            self.e, self.rowlist = list(self.e), [[e, w, i] for e, w, i in zip(self.e, self.w, self.i)]

    def _loadtxt(self, path, *a, **k):
        if str(path) != self.path:
            raise E.Unsupported("reads another file")
        self.read += 1
        n = width(k.get("dtype", a[0] if a else float)) if self.long else None
        cut = n is not None and n < 24
        out = np.empty((len(self.e), 3), dtype=object)
        for r, row in enumerate(self.rowlist):
            for c, v in enumerate(row):
                if cut and isinstance(v, E.Sym):
                    # the exponent is lost
                    v = self.mantissa(v)
                out[r, c] = E.SymText(v) if isinstance(v, E.Sym) else v
        if len(self.e) == 1 and k.get("ndmin", 0) < 2:
            out = out[0]
        return out.view(S.SymArray)

    def mantissa(self, v):
        m = v
        for p in (10.0, 100.0, 1000.0, 10000.0):
            m = E.ite(v >= p, v / p, m)
        return m

    def done(self):
        if self.h.symbolic and not self.read and not self.h.tag:
            raise E.Unsupported("line list read in an unknown way")


def qualifying(h, ll, elements, lo, hi, min_intensity):
    """condition, per line, that it passes the element, range and intensity
    filters and is the first of its wavelength"""
    out = []
    elements = [e.lower() for e in elements]
    names = [e.lower() for e in ll.e]
    for k, (e, w, i) in enumerate(zip(names, ll.w, ll.i)):
        if e not in elements:
            out.append(h.all([False]))
            continue
        c = [w >= lo, w <= hi]
        if min_intensity is not None:
            m = min_intensity[elements.index(e)] if hasattr(min_intensity, "__len__") else min_intensity
            c.append(i >= m)
        for j in range(k):
            if names[j] in elements:
                c.append(ll.w[j] != w)
        out.append(h.all(c))
    return out


def brightest(h, ll, ok, n):
    """condition that the line is one of the n brightest qualifying ones"""
    if n is None:
        return ok
    out = []
    for k in range(len(ok)):
        above = [h.all([ok[j], ll.i[j] > ll.i[k]]) for j in range(len(ok)) if j != k]
        out.append(h.all([ok[k], h.count(above) < n]))
    return out


def isolated(h, ll, ok, sep):
    if sep is None:
        return ok
    out = []
    for k in range(len(ok)):
        c = [ok[k]]
        for j in range(len(ok)):
            if j != k:
                c.append(h.implies(ok[j], abs(ll.w[j] - ll.w[k]) >= sep))
        out.append(h.all(c))
    return out


CODE = {}


def code(e):
    """elements as numbers, for comparing rows"""
    return CODE.setdefault(str(e), len(CODE) + 1)
