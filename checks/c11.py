from vlib.oracle import raises

PROPERTY = "C11"
BOUNDS = "up to 3 existing and 3 added points, every real coordinate and limit; arrays and transforms; infinite and NaN limits in every position"
OUTSIDE = "more points"


def points(h, name, n):
    v = h.reals(name, 2 * n, -20000, 20000)
    return h.arr(v).reshape(n, 2), [(v[2 * i], v[2 * i + 1]) for i in range(n)]


def same(h, got, exp, label):
    got = h.rows(got)
    h.check(len(got) == len(exp), label + ": number")
    if len(got) == len(exp):
        for i, (a, b) in enumerate(zip(got, exp)):
            h.check(len(a) == 2 and h.all([h.same(a[0], b[0]), h.same(a[1], b[1])]), "%s: %d" % (label, i))


def append(h, n, adds):
    from rascal.houghtransform import HoughTransform

    ht = HoughTransform()
    ht.hough_points, exp = points(h, "p", n)
    lim = None
    if n > 1:
        lim = h.reals("lim", 4, -20000, 20000)
        ht.set_constraints(*lim)
    kept = []
    for k, (kind, m) in enumerate(adds):
        arr, new = points(h, "a%d_" % k, m)
        if kind == "transform":
            other = HoughTransform()
            other.hough_points = arr
            other.set_constraints(1.0, 2.0, 3.0, 4.0)
            ht.add_hough_points(other)
            kept.append((other, new))
        else:
            ht.add_hough_points(arr)
            kept.append((arr, new))
        exp = exp + new
        same(h, ht.hough_points, exp, "points after addition %d" % k)
        own = (ht.min_slope, ht.max_slope, ht.min_intercept, ht.max_intercept)
        h.check(all(a is None for a in own) if lim is None else h.all([h.same(a, b) for a, b in zip(own, lim)]), "own limits after addition %d" % k)
    for k, (o, new) in enumerate(kept):
        if isinstance(o, HoughTransform):
            same(h, o.hough_points, new, "the other transform is untouched")
            h.check(h.all([h.same(a, b) for a, b in zip((o.min_slope, o.max_slope, o.min_intercept, o.max_intercept), (1, 2, 3, 4))]), "limits of the other transform")
            h.check(o.hist is None and o.hough_lines is None, "accumulator of the other transform")
        else:
            same(h, o, new, "the array is untouched")
    # the sum is independent of what was added
    if kept and n:
        old = exp[0][0]
        ht.hough_points[0, 0] = old + 1
        for o, new in kept:
            same(h, o.hough_points if isinstance(o, HoughTransform) else o, new, "added points are copied")
    h.reach()


def rejected(h, kind):
    from rascal.houghtransform import HoughTransform

    ht = HoughTransform()
    ht.hough_points, exp = points(h, "p", 2)
    bad = dict(list=[[1.0, 2.0]], tuple=((1.0, 2.0),), none=None, string="points", number=3.0, object=object())[kind]
    _, err = raises(lambda: ht.add_hough_points(bad))
    h.check(err == "TypeError", "other types are rejected with a TypeError")
    same(h, ht.hough_points, exp, "points unchanged")
    h.reach()


def limits(h, where=None, value=None):
    from rascal.houghtransform import HoughTransform

    ht = HoughTransform()
    v = h.reals("v", 4, -20000, 20000)
    if where is None:
        ht.set_constraints(*v)
        exp = v
    else:
        old = h.reals("o", 4, -20000, 20000)
        ht.set_constraints(*old)
        bad = list(v)
        bad[where] = float(value)
        _, err = raises(lambda: ht.set_constraints(*bad))
        h.check(err is not None, "limits that are not finite are rejected")
        exp = old
    got = (ht.min_slope, ht.max_slope, ht.min_intercept, ht.max_intercept)
    for n, a, b in zip(("min_slope", "max_slope", "min_intercept", "max_intercept"), got, exp):
        h.check(h.same(a, b), n)
    h.reach()


def instances(tier):
    for adds in ([("array", 1)], [("transform", 2)], [("array", 2), ("transform", 1)], [("transform", 1), ("array", 3)], [("array", 0)]):
        for n in (1, 2) if tier == "quick" else (0, 1, 2, 3):
            yield "append", append, dict(n=n, adds=adds), dict(cost=1)
    for k in ("list", "tuple", "none", "string", "number", "object"):
        yield "rejected", rejected, dict(kind=k), dict(cost=1)
    yield "limits", limits, {}, dict(cost=1)
    for w in range(4):
        for v in ("inf", "-inf", "nan"):
            yield "limits", limits, dict(where=w, value=v), dict(cost=1)
