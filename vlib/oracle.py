"""helpers shared by the harnesses (work in both contexts)"""


def same_rows(h, a, b, tol=1e-6):
    return h.all([h.eq(x, y, tol) for x, y in zip(a, b)])


def check_rows(h, out, exp, cond, label, tol=1e-6):
    """out (list of rows) is, in any order, exactly the rows of exp whose
    condition holds"""
    h.check(h.same(h.count(cond), len(out)), label + ": number of entries")
    for i, o in enumerate(out):
        if len(exp) and len(o) != len(exp[0]):
            h.check(False, label + ": shape of entries")
            return
        h.check(h.any([h.all([c, same_rows(h, o, e, tol)]) for e, c in zip(exp, cond)]), "%s: entry %d is an expected one" % (label, i))
    for e, c in zip(exp, cond):
        h.check(h.implies(c, h.any([same_rows(h, o, e, tol) for o in out])), label + ": every expected entry is there")


def check_list(h, out, exp, label, tol=1e-6):
    out, exp = h.list(out), h.list(exp)
    h.check(len(out) == len(exp), "%s: length %d, expected %d" % (label, len(out), len(exp)))
    if len(out) == len(exp):
        for i, (a, b) in enumerate(zip(out, exp)):
            if isinstance(a, str) or isinstance(b, str):
                h.check(str(a) == str(b), "%s[%d]" % (label, i))
            else:
                h.check(h.eq(a, b, tol), "%s[%d]" % (label, i))


def between(h, x, lo, hi):
    return h.all([x >= lo, x <= hi])


def raises(f, *exc):
    """(result, exception type name or None)"""
    try:
        return f(), None
    except (exc or (Exception,)) as e:
        return None, type(e).__name__
