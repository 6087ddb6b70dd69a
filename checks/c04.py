import numpy as np

from vlib.again import twice

PROPERTY = "C04"
BOUNDS = (
    "element-wise conversion: 1-3 real wavelengths from 2000 to 20000 Angstrom, every real pressure and humidity, given as number, "
    "list, tuple or array; air shorter than vacuum, order and round trip: every real wavelength (pair) in that range at listed "
    "temperatures, pressures and humidities (4, thorough 14)"
)
OUTSIDE = "wavelengths under 2000 Angstrom; conditions not listed, for order and round trip"
STUBS = "element-wise part: edlen_refraction is a made-up function of wavelength and conditions (its formula is C03)"


def fake(w, t, p, e):
    return 1.2 + w * 1e-5 + 1e-3 * t + 1e-6 * p + 1e-5 * e


def elementwise(h, direction, kind, n=1, t=285.0):
    from rascal import util

    from vlib.catalogue import saturation_pressure

    real = h.func("rascal.util", "edlen_refraction")

    def edlen(wavelengths, temperature, pressure, vapour_partial_pressure):
        if np.ndim(wavelengths) == 0:
            return fake(wavelengths, temperature, pressure, vapour_partial_pressure)
        return h.arr([fake(x, temperature, pressure, vapour_partial_pressure) for x in h.list(wavelengths)])

    h.stub(real, edlen)
    f = util.vacuum_to_air_wavelength if direction == "air" else util.air_to_vacuum_wavelength
    w = h.reals("w", n, 2000, 20000)
    p = h.real("p", 0, 120000)
    rh = h.real("rh", 0, 100)
    arg = dict(number=w[0], list=list(w), tuple=tuple(w), array=h.arr(w))[kind]
    out = f(arg, t, p, rh)
    got = [out] if kind == "number" else h.list(out)
    h.check(len(got) == n, "one wavelength per wavelength")
    e = rh / 100.0 * saturation_pressure(t - 273.15)
    for i, (g, x) in enumerate(zip(got, w)):
        ref = fake(x, t - 273.15, p, e)
        h.check(h.eq(g * ref, x) if direction == "air" else h.eq(g, x * ref), "wavelength %d is converted with the index at that wavelength" % i)
    if kind != "number":
        for i, (a, x) in enumerate(zip(arg, w)):
            h.check(h.same(a, x), "argument %d unchanged" % i)
    h.reach()


def defaults(h, direction):
    """without conditions: 273.15 K, 101325 Pa, dry"""
    from rascal import util

    f = util.vacuum_to_air_wavelength if direction == "air" else util.air_to_vacuum_wavelength
    w = h.real("w", 2000, 20000)
    h.check(h.eq(f(w), f(w, 273.15, 101325.0, 0.0)), "default conditions")
    h.reach()


class Dual:
    """value and derivative along one input, for running the real code forward"""

    def __init__(self, v, d):
        self.v, self.d = v, d

    @staticmethod
    def of(x):
        return x if isinstance(x, Dual) else Dual(x, 0.0)

    def __add__(self, o):
        o = Dual.of(o)
        return Dual(self.v + o.v, self.d + o.d)

    __radd__ = __add__

    def __neg__(self):
        return Dual(-self.v, -self.d)

    def __sub__(self, o):
        return self + (-Dual.of(o))

    def __rsub__(self, o):
        return Dual.of(o) - self

    def __mul__(self, o):
        o = Dual.of(o)
        return Dual(self.v * o.v, self.d * o.v + self.v * o.d)

    __rmul__ = __mul__

    def __truediv__(self, o):
        o = Dual.of(o)
        if not isinstance(o.d, float) or o.d:
            return Dual(self.v / o.v, (self.d * o.v - self.v * o.d) / (o.v * o.v))
        return Dual(self.v / o.v, self.d / o.v)

    def __rtruediv__(self, o):
        return Dual.of(o) / self

    def __pow__(self, n):
        n = int(n)
        return Dual(self.v ** n, n * self.v ** (n - 1) * self.d)


def slope(h, f, a, *cond):
    """value and derivative of the conversion at a"""
    if h.symbolic:
        r = f(Dual(a, 1.0), *cond)
        if isinstance(r, np.ndarray):
            r = r.reshape(-1)[0]
        return r.v, r.d
    d = 0.5
    lo, mid, hi = f(a - d, *cond), f(a, *cond), f(a + d, *cond)
    return float(mid), float((hi - lo) / (2 * d))


def order(h, t, p, rh):
    """both conversions increase everywhere, so that they preserve order"""
    from rascal import util

    a = h.real("a", 2000, 20000)
    for name, f in (("air", util.vacuum_to_air_wavelength), ("vacuum", util.air_to_vacuum_wavelength)):
        _, d = slope(h, f, a, t + 273.15, p, rh)
        h.check(d > 0.5, "order preserved in " + name)
    h.reach()


def shorter(h, t, p, rh):
    from rascal import util

    a = h.real("a", 2000, 20000)
    x = util.vacuum_to_air_wavelength(a, t + 273.15, p, rh)
    h.check(h.all([x < a, x > a * 0.9994]), "air wavelength is shorter, by less than 0.06 %")
    y = util.air_to_vacuum_wavelength(a, t + 273.15, p, rh)
    h.check(h.all([y > a, y < a * 1.0006]), "vacuum wavelength is longer, by less than 0.06 %")
    h.reach()


def there_and_back(h, t, p, rh):
    """converted with the index n (elementwise) a wavelength a becomes x=a/n(a)
    with 0.9994 a < x < a (shorter); going back gives x n(x), off by
    x |n(x)-n(a)| <= a * max|n'| * 0.0006 a.  Likewise the other way."""
    from rascal import util

    a = h.real("a", 1999, 20010)
    cond = (t + 273.15, p, rh)
    if h.symbolic:
        v, d = slope(h, util.air_to_vacuum_wavelength, a, *cond)
        # n = v / a, so n' = (d - n) / a
        h.check(h.all([(d * a - v) * 6.01 < 10.0, (d * a - v) * 6.01 > -10.0]), "there and back within 0.001 Angstrom")
    else:
        x = util.vacuum_to_air_wavelength(a, *cond)
        y = util.air_to_vacuum_wavelength(x, *cond)
        h.check(abs(y - a) < 0.001, "vacuum -> air -> vacuum within 0.001 Angstrom")
        u = util.air_to_vacuum_wavelength(a, *cond)
        v = util.vacuum_to_air_wavelength(u, *cond)
        h.check(abs(v - a) < 0.001, "air -> vacuum -> air within 0.001 Angstrom")
    h.reach()


def instances(tier):
    conds = [(0.0, 101325.0, 0.0), (20.0, 101325.0, 50.0), (-10.0, 60000.0, 10.0), (45.0, 110000.0, 100.0)]
    for d in ("air", "vacuum"):
        yield "again", twice(elementwise), dict(first=dict(direction=d, kind="array", n=1, t=285.25), second=dict(direction=d, kind="array", n=1, t=285.25)), dict(cost=2)
        yield "again", twice(elementwise), dict(first=dict(direction=d, kind="number", t=285.25), second=dict(direction=d, kind="number", t=285.5)), dict(cost=2)
        yield "again", twice(elementwise), dict(first=dict(direction="vacuum", kind="list", n=2), second=dict(direction=d, kind="list", n=1)), dict(cost=2)
    if tier == "thorough":
        conds += [(t, p, rh) for t in (-20.0, 10.0, 35.0, 60.0) for p, rh in ((50000.0, 0.0), (95000.0, 60.0), (120000.0, 100.0))][:10]
    for d in ("air", "vacuum"):
        yield "elementwise", elementwise, dict(direction=d, kind="number"), dict(cost=1)
        yield "elementwise", elementwise, dict(direction=d, kind="list", n=2), dict(cost=1)
        yield "elementwise", elementwise, dict(direction=d, kind="tuple", n=2, t=300.0), dict(cost=1)
        yield "elementwise", elementwise, dict(direction=d, kind="array", n=3), dict(cost=1)
        yield "defaults", defaults, dict(direction=d), dict(cost=1)
    for t, p, rh in conds:
        yield "shorter", shorter, dict(t=t, p=p, rh=rh), dict(cost=2)
        yield "order", order, dict(t=t, p=p, rh=rh), dict(cost=9)
        yield "there_and_back", there_and_back, dict(t=t, p=p, rh=rh), dict(cost=9)
