import copy
import json
import os

import numpy as np

from vlib import engine as E

PROPERTY = "C12"
BOUNDS = "transforms of up to 3 points and 2x2, 2x3 or 3x2 cells, any real points, counts, edges and limits; npy, json and both, any delimiter of a list; on disk and in memory; through the calibrator"
OUTSIDE = "the byte format of numpy's and json's own writers (the symbolic run keeps the content in memory, the replay writes real files); larger transforms"
STUBS = "in the symbolic run np.save, np.load, json.dump(s) and json.load(s) keep and hand back the content, np.load as an object array like the real one"
ASSUMPTIONS = ["np.save/np.load and json.dump/json.load return what they were given (exercised for real in every replay)"]


class Disk:
    """symbolic stand-in for the files; real ones in the replay"""

    def __init__(self, h):
        self.h = h
        self.npy, self.json, self.opened = {}, {}, {}
        self.written = []
        if h.symbolic:
            h.stub(np.save, self._save)
            h.stub(np.load, self._load)
            h.stub(json.dump, self._dump)
            h.stub(json.load, self._jload)
            h.stub(json.dumps, self._dumps)
            h.stub(json.loads, self._loads)

    def _save(self, path, content, *a, **k):
        given = path
        if hasattr(path, "write"):
            path = path.name
        elif not str(path).endswith(".npy"):
            path = str(path) + ".npy"
        a = np.empty(len(content), dtype=object)
        for i, v in enumerate(content):
            a[i] = v.copy() if isinstance(v, np.ndarray) else list(v) if isinstance(v, (list, tuple)) else v
        self.npy[str(path)] = a
        if not hasattr(given, "write"):
            open(path, "wb").close()

    def _load(self, path, *a, **k):
        path = getattr(path, "name", path)
        if str(path) not in self.npy:
            raise FileNotFoundError(path)
        if not k.get("allow_pickle"):
            raise ValueError("Object arrays cannot be loaded when allow_pickle=False")
        return self.npy[str(path)].copy()

    def _dumps(self, content, *a, **k):
        def plain(v):
            if isinstance(v, np.ndarray):
                raise TypeError("Object of type ndarray is not JSON serializable")
            if isinstance(v, dict):
                return {str(a): plain(b) for a, b in v.items()}
            if isinstance(v, (list, tuple)):
                return [plain(b) for b in v]
            return v

        text = '"content %d"' % len(self.json)
        self.json[text] = plain(content)
        return text

    def _dump(self, content, f, *a, **k):
        f.write(self._dumps(content))

    def _loads(self, text, *a, **k):
        text = text.decode() if isinstance(text, bytes) else text
        if text not in self.json:
            raise E.Unsupported("unknown json text")
        return copy.deepcopy(self.json[text])

    def _jload(self, f, *a, **k):
        return self._loads(f.read())


def make(h, n, xb, yb, cls):
    p = h.reals("p", 2 * n, -20000, 20000)
    e = h.reals("e", xb + yb + 2, -20000, 20000)
    c = h.reals("c", xb * yb, 0, 50)
    lim = h.reals("l", 4, -20000, 20000)
    ht = cls()
    ht.hough_points = h.arr(p).reshape(n, 2)
    ht.hist = h.arr(c).reshape(xb, yb)
    ht.xedges = h.arr(e[: xb + 1])
    ht.yedges = h.arr(e[xb + 1 :])
    ht.set_constraints(*lim)
    h.distinct(c)
    return ht, dict(
        hough_points=[[p[2 * i], p[2 * i + 1]] for i in range(n)], hist=[[c[i * yb + j] for j in range(yb)] for i in range(xb)],
        xedges=e[: xb + 1], yedges=e[xb + 1 :], min_slope=lim[0], max_slope=lim[1], min_intercept=lim[2], max_intercept=lim[3],
    )


def same_as(h, got, exp, label):
    for k, v in exp.items():
        g = got[k] if isinstance(got, dict) else getattr(got, k)
        if isinstance(v, list):
            gl = h.list(np.asarray(g, dtype=object)) if not isinstance(g, np.ndarray) else h.list(g)
            flat = [y for x in v for y in (x if isinstance(x, list) else [x])]
            h.check(len(gl) == len(flat), "%s: size of %s" % (label, k))
            shape = tuple(np.shape(g))
            want = (len(v), len(v[0])) if v and isinstance(v[0], list) else (len(v),)
            h.check(shape == want, "%s: shape of %s %s" % (label, k, shape))
            if len(gl) == len(flat):
                h.check(h.all([h.eq(a, b) for a, b in zip(gl, flat)]), "%s: %s" % (label, k))
        else:
            if isinstance(g, (list, np.ndarray)):
                g = h.list(g)
                h.check(len(g) == 1, "%s: %s is one number" % (label, k))
                g = g[0]
            h.check(h.eq(g, v), "%s: %s" % (label, k))


def lines_ok(h, ht, exp, label):
    """one line per cell by falling count"""
    xb, yb = len(exp["hist"]), len(exp["hist"][0])
    lines = h.rows(ht.hough_lines)
    h.check(len(lines) == xb * yb, label + ": lines")
    sx = (exp["xedges"][1] - exp["xedges"][0]) / 2
    sy = (exp["yedges"][1] - exp["yedges"][0]) / 2
    cells = sorted(((exp["hist"][i][j], i, j) for i in range(xb) for j in range(yb)), key=_Key)
    if len(lines) == len(cells):
        for (a, b), (_, i, j) in zip(lines, cells):
            h.check(h.all([h.eq(a, exp["xedges"][i] + sx), h.eq(b, exp["yedges"][j] + sy)]), label + ": line at its cell")


class _Key:
    def __init__(self, c):
        self.c = c

    def __lt__(self, o):
        return bool(self.c[0] > o.c[0])


NAMES = dict(npy="npy", json="json")


def usable(h, ht, exp, label):
    """numeric arrays that can be extended and binned"""
    from rascal.houghtransform import HoughTransform

    for k in ("hough_points", "hist", "xedges", "yedges"):
        h.check(isinstance(getattr(ht, k), np.ndarray), "%s: %s is an array" % (label, k))
    extra = h.reals("x", 2, -20000, 20000)
    ht.add_hough_points(h.arr(extra).reshape(1, 2))
    rows = h.rows(ht.hough_points)
    want = exp["hough_points"] + [extra]
    h.check(len(rows) == len(want), label + ": extended")
    if len(rows) == len(want):
        h.check(h.all([h.all([h.eq(a[0], b[0]), h.eq(a[1], b[1])]) for a, b in zip(rows, want)]), label + ": extended points")
    if not h.symbolic:
        h.check(np.asarray(ht.hough_points).dtype.kind == "f", label + ": numeric points")
        h.check(np.asarray(ht.hist).dtype.kind == "f", label + ": numeric accumulator")
        ht.bin_hough_points(2, 2)
        h.check(float(np.sum(ht.hist)) == len(want), label + ": binned again")


def disk(h, n, xb, yb, fmt, load, delimiter="+", ext=False, through=False, default=False):
    from rascal.calibrator import Calibrator
    from rascal.houghtransform import HoughTransform

    d = Disk(h)
    ht, exp = make(h, n, xb, yb, HoughTransform)
    name = os.path.join(h.tmpdir, "hough")
    owner = ht
    # by default an npy file
    how = {} if default else dict(fileformat=fmt, delimiter=delimiter, to_disk=True)
    back = {} if default else dict(filetype=load)
    if through:
        cal = Calibrator([10.0, 20.0])
        cal.ht = ht
        cal.save_hough_transform(filename=name, **how)
    else:
        ht.save(filename=name, **how)
    want = sorted("hough." + f for f in fmt.split(delimiter))
    h.check(sorted(os.listdir(h.tmpdir)) == want, "files written: %s" % (sorted(os.listdir(h.tmpdir)),))
    same_as(h, ht, exp, "saving changes nothing")
    if sorted(os.listdir(h.tmpdir)) != want:
        return
    src = name + ("." + load if ext else "")
    if through:
        cal2 = Calibrator([10.0, 20.0])
        cal2.load_hough_transform(filename=src, **back)
        new = cal2.ht
        h.check(_same_obj(h, cal2.hough_points, new.hough_points), "the calibrator uses the loaded points")
        h.check(cal2.hough_lines is not None and _same_obj(h, cal2.hough_lines, new.hough_lines), "the calibrator uses the loaded lines")
    else:
        new = HoughTransform()
        new.load(filename=src, **back)
    same_as(h, new, exp, "loaded")
    lines_ok(h, new, exp, "loaded")
    usable(h, new, exp, "loaded")
    h.reach()


def _same_obj(h, a, b):
    a, b = h.rows(a), h.rows(b)
    return len(a) == len(b) and h.all([h.all([h.same(p, q) for p, q in zip(x, y)]) for x, y in zip(a, b)])


def memory(h, n, xb, yb, fmt, delimiter="+", through=False):
    from rascal.calibrator import Calibrator
    from rascal.houghtransform import HoughTransform

    Disk(h)
    ht, exp = make(h, n, xb, yb, HoughTransform)
    name = os.path.join(h.tmpdir, "hough")
    if through:
        cal = Calibrator([10.0, 20.0])
        cal.ht = ht
        out = cal.save_hough_transform(filename=name, fileformat=fmt, delimiter=delimiter, to_disk=False)
    else:
        out = ht.save(filename=name, fileformat=fmt, delimiter=delimiter, to_disk=False)
    h.check(os.listdir(h.tmpdir) == [], "nothing is written")
    kinds = fmt.split(delimiter)
    parts = {}
    if "npy" in kinds and "json" in kinds:
        h.check(isinstance(out, tuple) and len(out) == 2, "both formats are returned")
        if not (isinstance(out, tuple) and len(out) == 2):
            return
        parts = dict(npy=out[0], json=out[1])
    else:
        parts = {kinds[0]: out}
    for k, v in parts.items():
        if k == "npy":
            keys = list(exp)
            h.check(v is not None and len(v) == len(keys), "npy content")
            if v is None or len(v) != len(keys):
                return
            v = dict(zip(["hough_points", "hist", "xedges", "yedges", "min_slope", "max_slope", "min_intercept", "max_intercept"], v))
        else:
            h.check(isinstance(v, dict) and sorted(v) == sorted(exp), "json content")
            if not isinstance(v, dict) or sorted(v) != sorted(exp):
                return
            if not h.symbolic:
                v = json.loads(json.dumps(v))
        same_as(h, v, exp, k)
    same_as(h, ht, exp, "saving changes nothing")
    h.reach()


def wrong_type(h):
    from rascal.houghtransform import HoughTransform
    from vlib.oracle import raises

    ht, exp = make(h, 1, 2, 2, HoughTransform)
    _, err = raises(lambda: ht.load(os.path.join(h.tmpdir, "hough"), filetype="txt"))
    h.check(err is not None, "unknown file types are rejected")
    same_as(h, ht, exp, "unchanged")
    h.reach()


def next_fit(h, fmt):
    """the fit after loading uses the loaded transform and not a new one"""
    from rascal.atlas import Atlas
    from rascal.calibrator import Calibrator
    from rascal.houghtransform import HoughTransform

    Disk(h)
    ht, exp = make(h, 2, 2, 2, HoughTransform)
    name = os.path.join(h.tmpdir, "hough")
    ht.save(filename=name, fileformat=fmt, to_disk=True)
    cal = Calibrator([100.0, 500.0, 900.0])
    cal.set_calibrator_properties(num_pix=1000, log_level="critical")
    atlas = Atlas()
    atlas.add_user_atlas(["A"] * 3, [4000.0, 5000.0, 6000.0])
    cal.set_atlas(atlas)
    cal.load_hough_transform(filename=name, filetype=fmt)
    seen = {}

    class Stop(Exception):
        pass

    def linear(tol):
        seen["points"], seen["lines"], seen["ht"] = cal.hough_points, cal.hough_lines, cal.ht
        raise Stop()

    if not hasattr(cal, "_get_candidate_points_linear"):
        h.skip("no candidate step")
    h.setattr(cal, "_get_candidate_points_linear", linear)
    try:
        cal.fit(max_tries=1, fit_deg=1, progress=False)
    except Stop:
        pass
    h.check("ht" in seen, "candidates are sought")
    if "ht" in seen:
        same_as(h, seen["ht"], exp, "transform used by the fit")
        h.check(_same_obj(h, seen["points"], exp["hough_points"]), "points used by the fit")
        h.check(_same_obj(h, seen["lines"], seen["ht"].hough_lines), "lines used by the fit")
    h.reach()


def instances(tier):
    sizes = [(1, 2, 2), (2, 2, 3)] + ([(3, 3, 2), (0, 2, 2)] if tier == "thorough" else [])
    for n, xb, yb in sizes:
        o = dict(cost=xb * yb) if xb * yb > 4 else dict(cost=2)
        if xb * yb > 4:
            o["max_paths"] = 800
        yield "disk", disk, dict(n=n, xb=xb, yb=2, fmt="npy", load="npy"), dict(cost=4)
        yield "disk", disk, dict(n=n, xb=xb, yb=2, fmt="json", load="json"), dict(cost=4)
        yield "memory", memory, dict(n=n, xb=xb, yb=yb, fmt="npy"), dict(cost=1)
        yield "memory", memory, dict(n=n, xb=xb, yb=yb, fmt="json"), dict(cost=1)
        yield "memory", memory, dict(n=n, xb=xb, yb=yb, fmt="npy+json"), dict(cost=1)
    yield "disk", disk, dict(n=1, xb=2, yb=2, fmt="npy+json", load="json"), dict(cost=4)
    yield "disk", disk, dict(n=1, xb=2, yb=2, fmt="json,npy", load="npy", delimiter=","), dict(cost=4)
    yield "disk", disk, dict(n=3, xb=2, yb=2, fmt="npy", load="npy", ext=True, through=True), dict(cost=4)
    yield "disk", disk, dict(n=2, xb=2, yb=2, fmt="json", load="json", ext=True, through=True), dict(cost=4)
    for through in (False, True):
        yield "disk", disk, dict(n=1, xb=2, yb=2, fmt="npy", load="npy", through=through, default=True), dict(cost=4)
    yield "memory", memory, dict(n=1, xb=2, yb=2, fmt="json|npy", delimiter="|", through=True), dict(cost=1)
    yield "memory", memory, dict(n=2, xb=2, yb=2, fmt="npy", through=True), dict(cost=1)
    yield "memory", memory, dict(n=2, xb=2, yb=2, fmt="json", through=True), dict(cost=1)
    yield "wrong_type", wrong_type, {}, dict(cost=1)
    for f in ("npy", "json"):
        yield "next_fit", next_fit, dict(fmt=f), dict(cost=3)
