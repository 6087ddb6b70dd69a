from vlib import cal as K
from vlib.oracle import check_rows

PROPERTY = "C14"
BOUNDS = "histories of up to 6 atlas operations (thorough 8) with a transform or fit after any of them; 2 peaks and up to 4 lines, all real"
OUTSIDE = "longer histories; the polygon constraint (C15)"
STUBS = "the Hough transform's own generation and binning, and the sampling part of fit(), are stopped at entry"


def history(h, steps, npeaks=2, brute=False):
    from rascal.calibrator import Calibrator

    peaks = h.reals("p", npeaks, 0, 999)
    cal = Calibrator(h.arr(peaks), spectrum=[0.0] * 1000)
    cal.set_calibrator_properties(log_level="critical")
    cal.set_hough_properties(num_slopes=3, xbins=2, ybins=2)
    seen = []
    ht = type(cal.ht)

    def generated(self, x, y, *a, **k):
        seen.append((h.list(x), h.list(y)))
        self.hough_points = K.npmod().zeros((1, 2))

    def binned(self, *a, **k):
        self.hough_lines = [(1.0, 2.0)]

    h.setattr(ht, "generate_hough_points", generated)
    h.setattr(ht, "generate_hough_points_brute_force", generated)
    h.setattr(ht, "bin_hough_points", binned)
    K.private(h, cal, "_solve_candidate_ransac")

    def stop(*a, **k):
        raise K.Stop()

    h.setattr(cal, "_solve_candidate_ransac", stop)
    lines = []
    atlas = None
    n = 0

    def compare(x, y, label):
        exp = [(p, w) for p in peaks for w in lines]
        check_rows(h, list(zip(x, y)), exp, [h.all([True])] * len(exp), label)

    for k, s in enumerate(steps):
        if s in ("set", "reset"):
            new = h.reals("s%d_" % k, 2 if s == "set" else 1, 1000, 20000)
            atlas = K.make_atlas(h, new)
            cal.set_atlas(atlas)
            lines = list(new)
        elif s == "add":
            new = h.reals("s%d_" % k, 1, 1000, 20000)
            cal.add_user_atlas(["N"], list(new))
            lines = lines + list(new)
            atlas = cal.atlas
        elif s == "direct add":
            new = h.reals("s%d_" % k, 1, 1000, 20000)
            atlas.add_user_atlas(["N"], list(new))
            lines = lines + list(new)
        elif s in ("remove", "direct remove"):
            x, t = h.real("s%dx" % k, 1000, 20000), h.real("s%dt" % k, 0, 10000)
            (cal if s == "remove" else atlas).remove_atlas_lines_range(x, t)
            lines = [w for w in lines if not bool(abs(w - x) < t)]
        elif s == "clear":
            cal.clear_atlas()
            lines = []
        elif s == "direct clear":
            atlas.clear()
            lines = []
        elif s == "hough":
            cal.set_hough_properties(min_wavelength=3500.0, num_slopes=4)
        elif s == "list":
            import contextlib
            import io

            with contextlib.redirect_stdout(io.StringIO()):
                cal.list_atlas()
        elif s == "transform":
            seen.clear()
            cal.do_hough_transform(brute_force=brute)
            h.check(len(seen) == 1, "points generated once (step %d)" % k)
            if seen:
                compare(seen[0][0], seen[0][1], "pairs transformed in step %d" % k)
        elif s == "fit":
            try:
                cal.fit(max_tries=1, fit_deg=1, progress=False)
            except K.Stop:
                pass
            rows = h.rows(cal.pairs)
            compare([r[0] for r in rows], [r[1] for r in rows], "pairs fitted in step %d" % k)
    h.reach()


def instances(tier):
    for t in ("transform", "fit"):
        yield "history", history, dict(steps=["set", t]), dict(cost=1)
        yield "history", history, dict(steps=["add", t]), dict(cost=1)
        yield "history", history, dict(steps=["set", "add", t]), dict(cost=1)
        yield "history", history, dict(steps=["set", t, "direct add", t]), dict(cost=1)
        yield "history", history, dict(steps=["set", t, "remove", t]), dict(cost=4)
        yield "history", history, dict(steps=["set", t, "direct remove", t]), dict(cost=4)
        yield "history", history, dict(steps=["set", t, "reset", t]), dict(cost=1)
        yield "history", history, dict(steps=["set", "clear", "add", t]), dict(cost=1)
        yield "history", history, dict(steps=["set", t, "direct clear", "add", t]), dict(cost=1)
        yield "history", history, dict(steps=["set", "hough", "direct add", t, "direct clear", "direct add", t]), dict(cost=1)
        yield "history", history, dict(steps=["set", "list", "remove", "add", t]), dict(cost=4)
        yield "history", history, dict(steps=["set", t, "direct clear", "direct add", "direct add", t]), dict(cost=1)
        yield "history", history, dict(steps=["add", t, "direct remove", "direct add", t]), dict(cost=4)
        yield "history", history, dict(steps=["set", t, "remove", "add", t]), dict(cost=4)
    yield "history", history, dict(steps=["set", "transform", "direct remove", "fit", "add", "transform"]), dict(cost=4)
    yield "history", history, dict(steps=["set", "transform", "direct add", "transform"], brute=True), dict(cost=1)
    yield "history", history, dict(steps=["set", "fit", "add", "direct add", "fit"], npeaks=3), dict(cost=2)
    if tier == "thorough":
        import itertools

        ops = ["add", "direct add", "remove", "direct remove", "reset", "direct clear", "hough"]
        for a, b in itertools.permutations(ops, 2):
            for t, u in (("transform", "fit"), ("fit", "transform"), ("fit", "fit")):
                yield "history", history, dict(steps=["set", t, a, b, u, "direct add", t]), dict(cost=3)
