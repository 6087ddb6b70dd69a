from vlib.catalogue import saturation_pressure
from vlib.again import twice

PROPERTY = "C03"
BOUNDS = (
    "every real wavelength from 2000 to 20000 Angstrom (1 to 3 of them), pressure 0-120 kPa, vapour pressure 0-5 kPa and relative "
    "humidity 0-100 %, at temperatures from -20 to 60 C from a list of 7 (thorough 17); arguments given as number, list or array"
)
OUTSIDE = "other temperatures (the saturation pressure contains square roots and is evaluated at the listed temperatures); wavelengths under 2000 Angstrom"


def edlen(h, w, t, p, e):
    """reference: modified Edlen equation, NIST engineering metrology toolbox"""
    mu2 = 1.0 / ((w * 1e-4) * (w * 1e-4))
    ns1 = 1e-8 * (8342.54 + 2406147.0 / (130.0 - mu2) + 15998.0 / (38.9 - mu2))
    x = (1.0 + 1e-8 * (0.601 - 0.00972 * t) * p) / (1.0 + 0.003661 * t)
    ntp1 = p * ns1 * x / 96095.43
    return 1.0 + ntp1 - 1e-10 * (292.75 / (t + 273.15)) * (3.7345 - 0.0401 * mu2) * e


def index(h, kind, t, n=1):
    f = h.func("rascal.util", "edlen_refraction")
    w = h.reals("w", n, 2000, 20000)
    p = h.real("p", 0, 120000)
    e = h.real("e", 0, 5000)
    arg = dict(number=w[0], list=list(w), array=h.arr(w))[kind]
    out = f(arg, t, p, e)
    got = [out] if kind == "number" else h.list(out)
    h.check(len(got) == n, "one index per wavelength")
    for i, (g, x) in enumerate(zip(got, w)):
        # refractivity to 9 digits after the point
        h.check(h.eq(1e9 * (g - edlen(h, x, t, p, e)), 0.0, 0.05), "refractive index %d" % i)
    h.reach()


def partial(h):
    f = h.func("rascal.util", "get_vapour_partial_pressure")
    rh = h.real("rh", 0, 100)
    ps = h.real("ps", 0, 20000)
    h.check(h.eq(f(rh, ps), rh * ps / 100.0), "partial pressure")
    h.reach()


def saturation(h, temps):
    f = h.func("rascal.util", "get_vapour_pressure")
    t = h.choice("t", list(temps))
    got = f(t)
    ref = saturation_pressure(t)
    h.check(h.all([got >= ref * (1 - 1e-6), got <= ref * (1 + 1e-6)]), "saturation pressure at %s C" % t)
    if t == 20.0:
        h.check(h.all([got >= 2337.0, got <= 2341.0]), "2339 Pa at 20 C")
    h.reach()


def conditions(h, direction, t, p, n=1):
    """whole conversion: the index is the one of the conditions given"""
    from rascal import util

    f = util.vacuum_to_air_wavelength if direction == "air" else util.air_to_vacuum_wavelength
    w = h.reals("w", n, 2000, 20000)
    rh = h.real("rh", 0, 100)
    out = h.list(f(h.arr(w), t + 273.15, p, rh))
    for i, (o, x) in enumerate(zip(out, w)):
        ref = edlen(h, x, t, p, rh / 100.0 * saturation_pressure(t))
        h.check(h.eq(1e3 * (o * ref - x if direction == "air" else o - ref * x), 0.0, 0.05), "converted wavelength %d" % i)
    h.reach()


TEMPS = [-20.0, 0.0, 5.5, 15.0, 20.0, 37.0, 60.0]


def instances(tier):
    temps = TEMPS if tier == "quick" else TEMPS + [-10.0, -5.0, 2.0, 8.0, 10.0, 12.5, 18.0, 25.0, 30.0, 45.0]
    yield "partial", partial, {}, dict(cost=1)
    yield "saturation", saturation, dict(temps=temps), dict(cost=1)
    for t in temps:
        yield "index", index, dict(kind="number", t=t), dict(cost=3)
    yield "index", index, dict(kind="list", t=12.0, n=2), dict(cost=5)
    yield "index", index, dict(kind="array", t=12.0, n=3 if tier == "thorough" else 2), dict(cost=5)
    for d in ("air", "vacuum"):
        for t, p in [(20.0, 101325.0), (-3.0, 60000.0)] + ([(35.0, 90000.0), (0.0, 101325.0)] if tier == "thorough" else []):
            yield "conditions", conditions, dict(direction=d, t=t, p=p), dict(cost=4)
    yield "again", twice(saturation), dict(first=dict(temps=[20.0, -5.5]), second=dict(temps=[20.0, 20.4, -5.1, 60.0])), dict(cost=2)
    yield "again", twice(partial), dict(first={}, second={}), dict(cost=1)
    yield "again", twice(index), dict(first=dict(kind="number", t=12.0), second=dict(kind="list", t=12.25, n=1)), dict(cost=5)
    yield "again", twice(index), dict(first=dict(kind="array", t=-3.5, n=2), second=dict(kind="array", t=-3.5, n=2)), dict(cost=5)
    for d in ("air", "vacuum"):
        yield "again", twice(conditions), dict(first=dict(direction=d, t=20.0, p=101325.0), second=dict(direction=d, t=20.0, p=101325.0)), dict(cost=5)
        yield "again", twice(conditions), dict(first=dict(direction=d, t=60.2, p=101325.0), second=dict(direction=d, t=60.9, p=101325.0)), dict(cost=5)
