from vlib import cal as K
from vlib.again import twice

PROPERTY = "C26"
BOUNDS = (
    "1-4 pairs (thorough 5) of any real pixels and wavelengths, degrees 0-3, every outcome of the robust fit; pairs given as list or array or taken from the "
    "stored ones (either or both), degree given, taken from the given or from the stored coefficients; then a second refit"
)
OUTSIDE = "how good the robust fit is (C24, C34)"
STUBS = "rascal's robust_polyfit returns arbitrary coefficients of the degree it is asked for"


def make(h, pix, wav, coef):
    from rascal.calibrator import Calibrator

    cal = Calibrator([1.0, 2.0, 3.0], spectrum=[0.0] * 10)
    cal.set_calibrator_properties(num_pix=10, log_level="critical")
    cal.matched_peaks, cal.matched_atlas = pix, wav
    cal.fit_coeff = coef
    return cal


def alike(h, a, b):
    a, b = h.list(a), h.list(b)
    return len(a) == len(b) and h.all([h.same(u, v) for u, v in zip(a, b)])


def refit(h, n, deg, source="given", form="list", old=2, ask="degree", rounds=1, ints=False):
    """old: number of stored pairs (coefficients of degree 1 unless asked)"""
    import rascal.models as rm

    calls = []
    sdeg = deg if ask == "stored" else 1
    scoef = [h.real("s%d" % i, -10, 10) for i in range(sdeg + 1)]

    def robust(x, y, degree=3, x0=None, **k):
        c = [h.real("f%d_%d" % (len(calls), i), -100, 100) for i in range(int(degree) + 1)]
        calls.append((h.list(x), h.list(y), int(degree), None if x0 is None else h.list(x0), c))
        return h.arr(c)

    h.stub(rm.robust_polyfit, robust)
    to = {"list": list, "array": h.arr}[form]
    m = n if source != "given" else old
    spix = [h.real("sp%d" % i, 0, 100) for i in range(n if source in ("stored", "wave") else old)]
    swav = [h.real("sw%d" % i, 4000, 6000) for i in range(n if source in ("stored", "pixels") else old)]
    cal = make(h, h.arr(spix), h.arr(swav), h.arr(scoef))
    for r in range(rounds):
        gpix = list(range(3, 3 + n)) if ints else [h.real("p%d_%d" % (r, i), 0, 100) for i in range(n)]
        gwav = [h.real("w%d_%d" % (r, i), 4000, 6000) for i in range(n)]
        kw = {}
        pix, wav = spix, swav
        if source in ("given", "pixels") or r:
            pix = gpix
            kw["matched_peaks"] = to(pix)
        if source in ("given", "wave") or r:
            wav = gwav
            kw["matched_atlas"] = to(wav)
        guess = scoef if ask == "stored" else None
        if ask in ("degree", "both"):
            kw["degree"] = deg
        if ask in ("guess", "both"):
            guess = [h.real("g%d_%d" % (r, i), -10, 10) for i in range(deg + 1)]
            kw["x0"] = list(guess)
        before = len(calls)
        res = cal.manual_refit(**kw)
        h.check(len(calls) == before + 1, "one fit")
        if len(calls) != before + 1:
            break
        x, y, d, x0, c = calls[-1]
        h.check(d == deg, "the requested degree is fitted")
        h.check(h.all([alike(h, x, pix), alike(h, y, wav)]), "exactly the pairs are fitted")
        if x0 is not None:
            h.check(guess is not None and alike(h, x0, guess), "no other starting guess")
        else:
            h.check(ask not in ("guess", "both"), "the starting guess is used")
        h.check(alike(h, res[0], c), "the fit is returned")
        h.check(h.all([alike(h, res[1], pix), alike(h, res[2], wav)]), "the pairs are returned")
        resid = h.list(res[4])
        h.check(len(resid) == len(pix) and h.all([h.eq(e, v - h.poly(c, u), 1e-6) for e, u, v in zip(resid, pix, wav)]), "residuals are data minus polynomial")
        sq = sum(((v - h.poly(c, u)) ** 2 for u, v in zip(pix, wav)), 0.0)
        if h.symbolic:
            h.check(h.all([res[3] >= 0, h.eq(res[3] ** 2, sq / len(pix), 1e-6)]), "rms is that of the residuals")
        else:
            h.check(h.eq(res[3], (sq / len(pix)) ** 0.5, 1e-5), "rms is that of the residuals")
        h.check(h.all([alike(h, cal.fit_coeff, c), alike(h, cal.matched_peaks, pix), alike(h, cal.matched_atlas, wav), alike(h, cal.residuals, resid)]), "fit, pairs and residuals are stored")
        h.check(h.eq(cal.rms, res[3], 1e-9), "rms is stored")
        if "matched_peaks" in kw:
            h.check(alike(h, kw["matched_peaks"], pix), "the caller's pixels are not modified")
        if "matched_atlas" in kw:
            h.check(alike(h, kw["matched_atlas"], wav), "the caller's wavelengths are not modified")
        if "x0" in kw:
            h.check(alike(h, kw["x0"], guess), "the caller's guess is not modified")
        if form == "array" or r == rounds - 1:
            # what the caller does with his data later does not matter
            for k in ("matched_peaks", "matched_atlas"):
                if k in kw and n and not ints:
                    kw[k][0] = kw[k][0] + 1
            h.check(h.all([alike(h, cal.matched_peaks, pix), alike(h, cal.matched_atlas, wav)]), "the stored pairs are copies")
        if ask == "stored":
            scoef = c
    h.reach()


def unusable(h, n, m, deg, how):
    import rascal.models as rm

    h.stub(rm.robust_polyfit, lambda x, y, degree=3, x0=None, **k: h.arr([1.0] * (int(degree) + 1)))
    spix, swav = h.reals("sp", 2, 0, 100), h.reals("sw", 2, 4000, 6000)
    scoef = h.reals("s", 2, -10, 10)
    cal = make(h, h.arr(spix), h.arr(swav), h.arr(scoef))
    cal.rms = 7.5
    pix, wav = h.reals("p", n, 0, 100), h.reals("w", m, 4000, 6000)
    kw = dict(matched_peaks=list(pix), matched_atlas=list(wav))
    if how in ("degree", "mismatch"):
        kw["degree"] = deg
    if how in ("guess", "mismatch"):
        kw["x0"] = [1.0] * (deg + (2 if how == "mismatch" else 1))
    try:
        cal.manual_refit(**kw)
        ok = True
    except (AssertionError, ValueError, TypeError):
        ok = False
    h.check(not ok, "unusable input is rejected")
    h.check(h.all([alike(h, cal.fit_coeff, scoef), alike(h, cal.matched_peaks, spix), alike(h, cal.matched_atlas, swav)]), "the stored solution is kept")
    h.check(cal.rms == 7.5, "the stored rms is kept")
    h.reach()


def instances(tier):
    yield "refit", refit, dict(n=2, deg=1), dict(cost=1)
    yield "refit", refit, dict(n=3, deg=2, form="array"), dict(cost=2)
    yield "refit", refit, dict(n=4, deg=3), dict(cost=3)
    yield "refit", refit, dict(n=3, deg=1, source="stored"), dict(cost=1)
    yield "refit", refit, dict(n=3, deg=2, source="stored", ask="stored"), dict(cost=1)
    yield "refit", refit, dict(n=3, deg=1, ask="stored", rounds=2), dict(cost=1)
    yield "refit", refit, dict(n=3, deg=2, ask="guess"), dict(cost=1)
    yield "refit", refit, dict(n=3, deg=2, ask="both", form="array"), dict(cost=1)
    yield "refit", refit, dict(n=3, deg=1, source="pixels"), dict(cost=1)
    yield "refit", refit, dict(n=3, deg=1, source="wave"), dict(cost=1)
    yield "refit", refit, dict(n=2, deg=1, rounds=2, source="stored"), dict(cost=1)
    yield "refit", refit, dict(n=3, deg=2, ints=True), dict(cost=1)
    for n, m, deg, how in ((2, 3, 1, "degree"), (3, 2, 1, "degree"), (0, 0, 1, "degree"), (2, 2, 2, "degree"), (1, 1, 1, "degree"), (3, 3, 0, "degree"), (3, 3, 3, "guess"), (3, 3, 0, "guess"), (3, 3, 1, "mismatch"), (3, 3, -1, "degree"), (1, 1, 1, "stored"), (2, 3, 1, "stored")):
        yield "unusable", unusable, dict(n=n, m=m, deg=deg, how=how), dict(cost=1)
    yield "again", twice(refit), dict(first=dict(n=2, deg=1), second=dict(n=3, deg=2, ask="guess")), dict(cost=2)
    if tier == "thorough":
        yield "refit", refit, dict(n=5, deg=4), dict(cost=9)
        yield "refit", refit, dict(n=5, deg=2, ask="guess", rounds=3), dict(cost=9)
        yield "refit", refit, dict(n=4, deg=3, ask="stored", rounds=3, form="array"), dict(cost=9)
