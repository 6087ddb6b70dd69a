from vlib import cal as K

PROPERTY = "C25"
BOUNDS = (
    "0-3 pairs to start with, 2 edits (thorough 3) in any order, adding any pixel and wavelength, removing any position counted from the front or the back; "
    "starting lists sorted or in any order, of floats or integers, as list, tuple or array, set by hand or left by manual_refit or match_peaks"
)
OUTSIDE = "removing a position that does not exist (numpy's IndexError is passed on); more pairs"
STUBS = "rascal's robust_polyfit returns a fixed line (manual_refit and match_peaks are only used to produce the lists)"


def pairs_of(cal):
    return [(p, w) for p, w in zip(list(cal.matched_peaks), list(cal.matched_atlas))]


def same_pairs(h, a, b):
    if len(a) != len(b):
        return False
    return h.all([h.all([h.same(p, q), h.same(v, w)]) for (p, v), (q, w) in zip(a, b)])


def edits(h, n, form, ops, sort=True, start=None, source="set"):
    import rascal.models as rm
    from rascal.calibrator import Calibrator

    if start is not None:
        pix = list(start)
        wav = [4000 + 10 * p for p in start]
    else:
        pix = [h.real("p%d" % i, 0, 100) for i in range(n)]
        wav = [h.real("w%d" % i, 4000, 6000) for i in range(n)]
        if sort:
            h.increasing(pix, 0)
    K.assignment(h)
    h.stub(rm.robust_polyfit, lambda x, y, degree=3, x0=None, **k: h.arr([4000.0, 10.0]))
    cal = Calibrator([1.0, 2.0, 3.0], spectrum=[0.0] * 10)
    cal.set_calibrator_properties(num_pix=10, log_level="critical")
    to = {"list": list, "array": h.arr, "tuple": tuple}[form]
    if source == "refit":
        cal.manual_refit(to(pix), to(wav), degree=1)
    elif source == "match":
        cal = Calibrator(list(pix), spectrum=[0.0] * 10)
        cal.set_calibrator_properties(num_pix=10, log_level="critical")
        cal.set_atlas(K.make_atlas(h, [float(w) for w in wav]))
        cal.match_peaks(fit_coeff=[4000.0, 10.0], tolerance=1.0, robust_refit=False)
    else:
        cal.matched_peaks, cal.matched_atlas = to(pix), to(wav)
    ref = list(zip(pix, wav))
    h.check(same_pairs(h, pairs_of(cal), ref), "pairs to start with")
    for k, op in enumerate(ops):
        if op == "any":
            op = h.choice("op%d" % k, ["add", "remove"])
        if op == "remove" and not ref:
            continue
        if op == "add":
            p, w = h.real("ap%d" % k, 0, 100), h.real("aw%d" % k, 4000, 6000)
            cal.add_pix_wave_pair(p, w)
            got = pairs_of(cal)
            h.check(len(got) == len(list(cal.matched_peaks)) == len(list(cal.matched_atlas)) == len(ref) + 1, "one pair more")
            # exactly this pair, somewhere
            opts = [ref[:i] + [(p, w)] + ref[i:] for i in range(len(ref) + 1)]
            h.check(h.any([same_pairs(h, got, o) for o in opts]), "exactly the added pair is inserted")
            if len(got) == len(ref) + 1:
                was = h.all([a[0] <= b[0] for a, b in zip(ref[:-1], ref[1:])])
                now = h.all([a[0] <= b[0] for a, b in zip(got[:-1], got[1:])])
                h.check(h.implies(was, now), "sorted pixels stay sorted")
            ref = got
        else:
            i = h.choice("at%d" % k, list(range(-len(ref), len(ref))))
            cal.remove_pix_wave_pair(i)
            ref = list(ref)
            del ref[i]
            h.check(len(list(cal.matched_peaks)) == len(list(cal.matched_atlas)), "lists stay aligned")
            h.check(same_pairs(h, pairs_of(cal), ref), "exactly the pair at the position is removed")
        listed = cal.get_pix_wave_pairs()
        h.check(len(listed) == len(ref) and [t[0] for t in listed] == list(range(len(ref))), "positions are listed")
        h.check(same_pairs(h, [(t[1], t[2]) for t in listed], ref), "pairs are listed")
    h.reach()


def instances(tier):
    for form in ("list", "array", "tuple"):
        yield "edits", edits, dict(n=2, form=form, ops=["any", "any"]), dict(cost=3)
    yield "edits", edits, dict(n=0, form="list", ops=["add", "any"]), dict(cost=1)
    yield "edits", edits, dict(n=3, form="array", ops=["any", "any"]), dict(cost=5)
    yield "edits", edits, dict(n=3, form="list", ops=["any", "any"], sort=False), dict(cost=5)
    yield "edits", edits, dict(n=3, form="list", ops=["any", "any"], start=[2, 5, 9]), dict(cost=5)
    yield "edits", edits, dict(n=2, form="list", ops=["any", "any"], source="refit"), dict(cost=3)
    yield "edits", edits, dict(n=2, form="array", ops=["any", "any"], source="refit"), dict(cost=3)
    yield "edits", edits, dict(n=3, form="list", ops=["any", "any"], source="match", start=[2, 5, 9]), dict(cost=3)
    yield "edits", edits, dict(n=3, form="list", ops=["any", "any"], source="match", start=[9.5, 2.5, 5.5]), dict(cost=3)
    if tier == "thorough":
        for form in ("list", "array", "tuple"):
            yield "edits", edits, dict(n=2, form=form, ops=["any", "any", "any"]), dict(cost=30)
            yield "edits", edits, dict(n=3, form=form, ops=["any", "any", "any"], sort=False), dict(cost=30)
        yield "edits", edits, dict(n=3, form="list", ops=["any", "any", "any"], start=[2, 5, 9]), dict(cost=30)
        yield "edits", edits, dict(n=4, form="array", ops=["add", "add", "any"]), dict(cost=30)
