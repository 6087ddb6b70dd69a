"""Explores harnesses symbolically, replays counterexamples on the real code,
writes evidence.  See DESIGN.md."""
import argparse
import collections
import hashlib
import importlib
import json
import logging
import multiprocessing as mp
import multiprocessing.connection
import os
import random as pyrandom
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO_SRC = "/repo/src"

import numpy as np

from . import engine as E
from . import patch as PT
from . import symnp as S

TOOL = "z3 %s" % E.z3.get_version_string()


# --------------------------------------------------------------------------
# harness API additions common to both contexts
# --------------------------------------------------------------------------


class Api:
    """mixed into both contexts"""

    def setup(self, random=None):
        PT.MODULES.restore()
        self.inst = PT.Installer()
        self.rnd = S.RandomStub()
        if self.symbolic:
            self.inst.install_symbolic(self.rnd)
        else:
            self.inst.install_random(self.rnd)
        self._tmp = None
        self.data = {}

    def again(self, tag="again "):
        """a second use of the library in the same process: other inputs, the
        stand-ins of the first one gone, what the library keeps still there"""
        self.inst.restore()
        self.tag += tag
        if self.symbolic:
            self.inst.install_symbolic(self.rnd)
        else:
            self.inst.install_random(self.rnd)
        self.data = {}

    def teardown(self):
        self.inst.restore()
        if self._tmp:
            shutil.rmtree(self._tmp, ignore_errors=True)

    @property
    def tmpdir(self):
        if self._tmp is None:
            self._tmp = tempfile.mkdtemp(prefix="verif_rascal_")
        return self._tmp

    def stub(self, original, replacement):
        self.inst.stub(original, replacement)

    def setattr(self, o, n, v):
        self.inst.setattr(o, n, v)

    def arr(self, vals):
        vals = list(vals)
        if self.symbolic:
            return S.symarray(vals)
        return np.array(vals, dtype=float)

    def reals(self, name, n, lo=None, hi=None):
        return [self.real("%s%d" % (name, i), lo, hi) for i in range(n)]

    def increasing(self, xs, gap=None):
        for a, b in zip(xs[:-1], xs[1:]):
            self.assume((b > a) if gap is None else (b >= a + gap))

    def distinct(self, xs):
        for i in range(len(xs)):
            for j in range(i):
                self.assume(xs[i] != xs[j])

    def skip(self, why):
        """the public surface this harness needs is not there"""
        raise Skip(why)

    def xor(self, a, b):
        return self.iff(a, self.not_(b))

    def not_(self, a):
        if isinstance(a, E.Sym):
            return E.mkb(E.z3.Not(E.tob(a)))
        return not a

    def poly(self, c, x):
        """Horner, lowest order first (the reference, independent of numpy)"""
        r = 0.0
        for v in reversed(list(c)):
            r = r * x + v
        return r

    def list(self, a):
        if isinstance(a, np.ndarray):
            return list(S.plain(a).ravel())
        return list(a)

    def rows(self, a):
        return [list(S.plain(r)) if isinstance(r, np.ndarray) else list(r) for r in a]

    def max(self, xs):
        r = xs[0]
        for x in xs[1:]:
            r = self.ite(x > r, x, r)
        return r

    def min(self, xs):
        r = xs[0]
        for x in xs[1:]:
            r = self.ite(x < r, x, r)
        return r

    def abs(self, x):
        return abs(x)

    def func(self, module, *names):
        m = importlib.import_module(module)
        o = m
        for n in names:
            if not hasattr(o, n):
                self.skip("%s.%s is not there" % (module, ".".join(names)))
            o = getattr(o, n)
        return o


class Skip(BaseException):
    pass


class SymH(Api, E.SymCtx):
    pass


class ConcH(Api, E.ConcCtx):
    pass


# --------------------------------------------------------------------------
# functions executed
# --------------------------------------------------------------------------


class FuncTrace:
    """which rascal functions ran (sys.monitoring; near zero cost)"""

    def __init__(self):
        self.seen = set()

    def __enter__(self):
        mon = sys.monitoring
        self.id = 3
        try:
            mon.use_tool_id(self.id, "verif")
        except ValueError:
            self.id = None
            return self

        def start(code, off):
            fn = code.co_filename
            if fn.startswith(REPO_SRC):
                self.seen.add("%s:%s" % (os.path.relpath(fn, REPO_SRC), code.co_qualname))
            return mon.DISABLE

        mon.register_callback(self.id, mon.events.PY_START, start)
        mon.set_events(self.id, mon.events.PY_START)
        mon.restart_events()
        return self

    def __exit__(self, *a):
        if self.id is not None:
            sys.monitoring.set_events(self.id, 0)
            sys.monitoring.free_tool_id(self.id)


# --------------------------------------------------------------------------
# one run
# --------------------------------------------------------------------------


class Hang(BaseException):
    """ran past its time limit"""


class Alarm:
    """raises Hang after `s` seconds"""

    def __init__(self, s):
        self.s = s

    def __enter__(self):
        self.old = signal.signal(signal.SIGALRM, self._hit)
        signal.setitimer(signal.ITIMER_REAL, self.s)

    def _hit(self, *a):
        raise Hang("no end after %d s" % self.s)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)


CONC_LIMIT_S = 60


def conc_run(fn, params, inputs):
    """harness on the real, unpatched code with plain floats.
    returns (failed labels, note)"""
    c = ConcH(inputs)
    E.set_ctx(c)
    c.setup()
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with np.errstate(all="ignore"), Alarm(CONC_LIMIT_S):
                fn(c, **params)
    except E.PathAbort as e:
        if c.failed:
            return c.failed, "aborted later"
        return [], "aborted: %s" % e
    except Skip as e:
        return [], "skipped"
    except E.Unsupported as e:
        return c.failed, "aborted: %s" % e
    except Hang as e:
        return c.failed + ["does not terminate (%s)" % e], ""
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if f.filename.startswith(REPO_SRC)]
        if isinstance(e, (AttributeError, NameError, NotImplementedError)) and tb and os.sep + "vlib" + os.sep in tb[-1].filename:
            # a stand-in cannot do what it is asked
            return c.failed, "harness error %s: %s %s" % (type(e).__name__, e, tb[-1:])
        if where:
            f = where[-1]
            return (
                c.failed + ["raises %s: %s (%s:%d)" % (type(e).__name__, str(e)[:120], os.path.basename(f.filename), f.lineno)],
                "",
            )
        if isinstance(e, TypeError) and not any(os.sep + "vlib" + os.sep in f.filename for f in tb[-1:]):
            # the harness could not work with what it was given
            return c.failed, "form: %s" % e
        return c.failed, "harness error %s: %s %s" % (type(e).__name__, e, tb[-1:])
    finally:
        c.teardown()
        E.set_ctx(None)
    return c.failed, "ok"


CURRENT = {}  # what the running exploration has so far


def explore(name, fn, params, opts):
    """DFS over all paths.  Returns a result dict."""
    st = E.Stats()
    res = dict(
        name=name, params={k: str(v)[:400] for k, v in params.items()}, violation=None, undecided=[], mismatches=[], complete=True,
        functions=[], samples=[], skipped=None, exceptions=collections.Counter(),
    )
    t0 = time.time()
    prefix = []
    rng = pyrandom.Random(opts.get("seed", 1))
    nval = opts.get("validate", 3)
    tried = 0
    funcs = set()
    notes = []
    CURRENT.update(res=res, stats=st, funcs=funcs, t0=t0)
    max_paths = opts.get("max_paths", 200000)
    while True:
        if st.paths >= max_paths or time.time() - t0 > opts.get("time_s", 300):
            res["complete"] = False
            break
        ctx = SymH(prefix, st, dict(opts, deadline=t0 + opts.get("time_s", 300)))
        E.set_ctx(ctx)
        ctx.setup()
        status = "end"
        exc = None
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                with np.errstate(all="ignore"), Alarm(opts.get("path_s", 150)):
                    if st.paths < 3:
                        with FuncTrace() as ft:
                            try:
                                fn(ctx, **params)
                            finally:
                                funcs |= ft.seen
                    else:
                        fn(ctx, **params)
        except E.PathAbort as e:
            status = "abort"
        except E.Budget as e:
            status = "budget"
            res["complete"] = False
            exc = e
        except Skip as e:
            res["skipped"] = str(e)
            ctx.teardown()
            E.set_ctx(None)
            break
        except Hang as e:
            status = "exception"
            exc = e
        except E.Unsupported as e:
            status = "unsupported"
            exc = e
        except Exception as e:
            status = "exception"
            exc = e
        finally:
            ctx.teardown()
        E.set_ctx(ctx)
        st.paths += 1
        notes += ctx.notes[: max(0, 3 - len(notes))]
        if status in ("end", "abort"):
            r = ctx.flush()
            if r is not None and r[0] == "unknown":
                res["undecided"].append("solver unknown: %s" % (r[1][:3],))
                r = None
            if r is not None:
                v = _confirm(ctx, fn, params, r, opts)
                if v["confirmed"]:
                    res["violation"] = dict(labels=v["labels"], inputs=v["inputs"], symbolic_labels=r[1])
                else:
                    res["undecided"].append("not reproduced: %s %s inputs=%s" % (r[1][:4], v["note"], json.dumps(r[2])[:300]))
            elif status == "end" and tried < nval and (tried == 0 or rng.random() < 0.3 or opts.get("validate_all")):
                E.set_ctx(ctx)
                m = _validate(ctx, fn, params)
                tried += 1
                if m is True:
                    st.validated += 1
                    if len(res["samples"]) < 2:
                        res["samples"].append(dict(path_inputs=ctx.last_inputs, decisions=len(ctx.prefix)))
                elif m is not None:
                    if m.get("violation"):
                        res["violation"] = m["violation"]
                    else:
                        res["mismatches"].append(m["note"])
        else:
            inp = None
            try:
                inp = ctx.path_inputs()
            except E.Unsupported:
                pass
            text = "%s: %s" % (type(exc).__name__, str(exc)[:160])
            if opts.get("debug") and exc is not None:
                text += "\n" + "".join(traceback.format_exception(exc))
            if inp is None:
                if status != "budget" and ctx._check() != E.z3.unsat:
                    res["undecided"].append(text)
            else:
                E.set_ctx(None)
                failed, note = conc_run(fn, params, inp)
                if not failed and status == "exception" and not isinstance(exc, Hang):
                    for other in _other_inputs(ctx, inp, None, 3):
                        failed, _ = conc_run(fn, params, other)
                        if failed:
                            inp = other
                            break
                if failed:
                    res["violation"] = dict(labels=failed, inputs=inp, symbolic_labels=[text])
                elif note.startswith("form:") and isinstance(exc, TypeError):
                    res["violation"] = dict(labels=["the result has not the expected form (%s)" % note[6:150]], inputs=inp, symbolic_labels=[text])
                elif note.startswith("aborted") and status == "exception":
                    res["undecided"].append(text + " [replay " + note + "]")
                else:
                    res["undecided"].append(text + " [replay passes: %s]" % note)
        E.set_ctx(None)
        if res["violation"]:
            if opts.get("known") and opts["known"](res["violation"]["labels"]):
                res.setdefault("known", []).append(res["violation"])
                res["violation"] = None
            else:
                break
        if len(res["undecided"]) >= opts.get("max_undecided", 25):
            res["complete"] = False
            break
        # backtrack
        prefix = ctx.prefix
        while prefix and prefix[-1][1] != "open":
            prefix.pop()
        if not prefix:
            break
        prefix[-1][0] = not prefix[-1][0]
        prefix[-1][1] = "done"
    res["stats"] = dict(st.__dict__)
    res["functions"] = sorted(funcs)
    res["notes"] = notes
    res["wall_s"] = time.time() - t0
    return res


def _confirm(ctx, fn, params, r, opts):
    """replay; on failure to reproduce ask for other models"""
    note = ""
    inputs = r[2]
    E.set_ctx(None)
    failed, note = conc_run(fn, params, inputs)
    if failed:
        return dict(confirmed=True, labels=failed, inputs=inputs, note=note)
    # other models: ask for a clear violation, away from earlier inputs
    z3 = E.z3
    for inputs in _other_inputs(ctx, inputs, z3.Or(*[z3.Not(e) for _, e in ctx.pending]), opts.get("retries", 6)):
        failed, note = conc_run(fn, params, inputs)
        if failed:
            return dict(confirmed=True, labels=failed, inputs=inputs, note=note)
    return dict(confirmed=False, note=note)


def _other_inputs(ctx, inputs, also, times):
    """further inputs that take the same path, each away from the last"""
    solver = ctx.solver
    z3 = E.z3
    solver.push()
    try:
        if also is not None:
            solver.add(also)
        for k in range(times):
            blocks = []
            for n in ctx.input_order:
                v = ctx.inputs[n]
                if v.sort() == z3.RealSort() and n in inputs:
                    x = E.rv(inputs[n])
                    d = z3.Q(1, 4)
                    blocks.append(z3.Or(v > x + d, v < x - d))
            if not blocks:
                break
            solver.add(z3.Or(*blocks))
            E.set_ctx(ctx)
            if ctx._check() != z3.sat:
                break
            inputs = ctx.pinned_inputs(ctx._get_model())
            E.set_ctx(None)
            yield inputs
    except (E.Unsupported, z3.Z3Exception, AttributeError):
        pass
    finally:
        solver.pop()


def _validate(ctx, fn, params):
    """concrete run of a path the solver passed.  True: agrees; None: could
    not be run; dict: disagrees"""
    fails = []
    try:
        inp = ctx.path_inputs()
    except E.Unsupported:
        return None
    if inp is None:
        return None
    ctx.last_inputs = inp
    z3 = E.z3
    for attempt in range(3):
        E.set_ctx(None)
        failed, note = conc_run(fn, params, inp)
        if not failed:
            if attempt == 0:
                return True if note == "ok" else None
            break
        fails.append((inp, failed))
        solver = ctx.solver
        solver.push()
        try:
            for n in ctx.input_order:
                v = ctx.inputs[n]
                if v.sort() == z3.RealSort() and n in inp:
                    x = E.rv(inp[n])
                    solver.push()
                    solver.add(z3.Or(v > x + z3.Q(1, 8), v < x - z3.Q(1, 8)))
                    if E.WATCH.check(solver, 12) != z3.sat:
                        solver.pop()
            E.set_ctx(ctx)
            if ctx._check() != z3.sat:
                break
            inp = ctx.pinned_inputs(ctx._get_model())
        except (E.Unsupported, z3.Z3Exception, AttributeError):
            break
        finally:
            while solver.num_scopes():
                solver.pop()
    E.set_ctx(None)
    if len(fails) >= 2:
        inp, failed = fails[-1]
        return dict(violation=dict(labels=failed, inputs=inp, symbolic_labels=["(path passed symbolically; the replay of its inputs fails)"]), note="")
    return dict(note="symbolic pass, concrete fail: %s %s" % (fails[0][1], json.dumps(fails[0][0])[:300]))


# --------------------------------------------------------------------------
# checks
# --------------------------------------------------------------------------


def known_matcher(prop):
    path = os.path.join(VERIF, "known_findings.json")
    try:
        data = json.load(open(path))
    except OSError:
        return [], (lambda name, labels: None)
    mine = [k for k in data.get("known", []) if k["property"] == prop]

    def match(name, labels):
        for k in mine:
            if k["harness"] == name and all(any(l.startswith(p) for p in k["labels"]) for l in labels):
                return k
        return None

    return mine, match


_TASKS = []


def _worker(i):
    name, fn, params, opts = _TASKS[i]
    logging.disable(logging.CRITICAL)
    import resource

    try:
        return i, explore(name, fn, params, opts)
    except BaseException as e:  # engine failure
        return i, dict(name=name, params={}, error="".join(traceback.format_exception(e))[-3000:])


def _child(i, conn):
    def stuck():
        # the solver neither answers nor heeds an interrupt
        res = CURRENT.get("res")
        if res is not None:
            st = CURRENT["stats"]
            st.paths = max(st.paths, 1)
            res = dict(res, stats=dict(st.__dict__), functions=sorted(CURRENT["funcs"]), notes=[], wall_s=time.time() - CURRENT["t0"], complete=False)
            res["undecided"] = res["undecided"] + ["the solver does not answer"]
            conn.send((i, res))
        os._exit(0)

    E.WATCH.on_stuck = stuck
    conn.send(_worker(i))
    conn.close()


def schedule(order, jobs, results, deadline):
    """each instance in a process of its own; True if cut short"""
    ctx = mp.get_context("fork")
    todo = list(order)
    running = {}
    again = collections.Counter()
    cut = False
    try:
        while todo or running:
            while todo and len(running) < jobs:
                i = todo.pop(0)
                r, w = ctx.Pipe(False)
                p = ctx.Process(target=_child, args=(i, w), daemon=True)
                p.start()
                w.close()
                running[r] = (i, p)
            ready = mp.connection.wait(list(running), timeout=max(0.0, min(5.0, deadline - time.time())))
            for r in ready:
                i, p = running.pop(r)
                try:
                    results.append(r.recv()[1])
                except EOFError:
                    again[i] += 1
                    if again[i] <= 2:
                        # the solver crashed: once more
                        todo.insert(0, i)
                        r.close()
                        p.join(1)
                        continue
                    name, fn, params, opts = _TASKS[i]
                    results.append(dict(name=name, params={}, error="%s %s: the process ended without a result (memory?)" % (name, params)))
                r.close()
                p.join(1)
                if results[-1].get("violation"):
                    return True
            if time.time() > deadline:
                cut = True
                break
    finally:
        for i, p in running.values():
            p.kill()
    return cut


def load_check(mod):
    m = importlib.import_module("checks." + mod)
    return m


def replay_file(path):
    d = json.load(open(path))
    m = load_check(d["check"])
    for name, fn, params, opts in m.instances(d["tier"]):
        if name == d["harness"] and {k: str(v)[:400] for k, v in params.items()} == d["params"]:
            failed, note = conc_run(fn, params, d["inputs"])
            print("replay of %s on the real code: %s %s" % (d["harness"], failed or "passes", note))
            return 1 if failed else 0
    print("no such harness")
    return 2


def run_check(mod, tier, jobs=None, only=None, debug=False, total_s=None):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    m = load_check(mod)
    prop = m.PROPERTY
    import rascal.calibrator  # noqa: F401  (loaded before forking)

    known, match = known_matcher(prop)
    budget = total_s or (420 if tier == "quick" else 3000)
    _TASKS.clear()
    for name, fn, params, opts in m.instances(tier):
        if only and only not in name and only not in str(params):
            continue
        o = dict(seed=seed, time_s=budget * 0.9, debug=debug)
        o.update(getattr(m, "OPTS", {}))
        o.update(opts)
        o["known"] = (lambda labels, name=name: match(name, labels))
        _TASKS.append((name, fn, params, o))
    results = []
    order = sorted(range(len(_TASKS)), key=lambda i: -_TASKS[i][3].get("cost", 1))
    jobs = jobs or min(8, os.cpu_count() or 1, max(1, len(_TASKS)))
    stop = False
    if jobs == 1:
        for i in order:
            results.append(_worker(i)[1])
            if results[-1].get("violation"):
                break
    else:
        stop = schedule(order, jobs, results, t0 + budget)
    return report(m, mod, prop, tier, seed, results, known, t0, stop or len(results) < len(_TASKS))


def report(m, mod, prop, tier, seed, results, known, t0, cut):
    tot = E.Stats()
    funcs = set()
    viol = None
    undecided = []
    errors = []
    mism = []
    inst = []
    samples = []
    knowns = {}
    complete = not cut
    exceptions = 0
    for r in results:
        if r.get("error"):
            errors.append(r["error"])
            continue
        tot.add(r["stats"])
        funcs |= set(r["functions"])
        undecided += ["%s%s: %s" % (r["name"], r["params"], u) for u in r["undecided"]]
        mism += r["mismatches"]
        if not r["complete"]:
            complete = False
        if r["violation"] and not viol:
            viol = (r, r["violation"])
        for k in r.get("known", []):
            knowns[(r["name"], tuple(k["labels"]))] = k
        samples += [dict(s, harness=r["name"], params=r["params"]) for s in r["samples"]]
        inst.append(
            dict(
                harness=r["name"], params=r["params"], paths=r["stats"]["paths"], complete=r["complete"],
                queries=r["stats"]["queries"], solver_s=round(r["stats"]["solver_s"], 2), wall_s=round(r["wall_s"], 2),
                reached=r["stats"]["reached"], skipped=r["skipped"], validated=r["stats"]["validated"],
            )
        )
    vac = [
        "%s%s" % (i["harness"], i["params"]) for i in inst if not i["reached"] and not i["skipped"]
    ]
    pyrandom.Random(seed).shuffle(samples)
    wall = time.time() - t0
    cov = dict(
        states=tot.paths,
        transitions=tot.branches,
        traces_validated_against_impl=tot.validated,
        samples=samples[:6] or [dict(note="no path completed")],
        exhaustive=bool(complete and not undecided and not vac),
        explanation="states = symbolic paths executed to their end (each stands for all input values satisfying its path condition); "
        "transitions = symbolic branch conditions decided by the solver",
        technique="symbolic execution of the real Python functions with z3",
        solver=TOOL,
        functions_encoded=sorted(funcs),
        bounds=getattr(m, "BOUNDS", ""),
        outside=getattr(m, "OUTSIDE", ""),
        stubs=getattr(m, "STUBS", ""),
        solver_queries=tot.queries,
        solver_s=round(tot.solver_s, 2),
        assertions=tot.checks,
        assertion_queries=tot.check_queries,
        assertions_decided_syntactically=tot.trivial_checks,
        forks=tot.forks,
        concretisations=tot.concretizations,
        undecided_paths=len(undecided),
        undecided_samples=undecided[:5],
        mismatches=mism[:5],
        vacuous_instances=vac,
        complete=complete,
        instances=inst[:200],
    )
    ev = dict(
        property=prop,
        tier=tier,
        seed=seed,
        level="model_checking",
        coverage=cov,
        assumptions=list(getattr(m, "ASSUMPTIONS", []))
        + ["floats are modelled as real numbers: rounding error, overflow and -0.0 are outside the claim"],
        wall_s=round(wall, 2),
        violations=1 if viol else 0,
    )
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    evp = os.path.join(VERIF, "evidence", prop + ".json")
    with open(evp + ".tmp", "w") as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(evp + ".tmp", evp)
    for k in known:
        hit = any(kk[0] == k["harness"] for kk in knowns)
        if hit:
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    print(
        "%s %s: %d instances, %d paths, %d queries, solver %.1fs, wall %.1fs, validated %d, complete=%s, undecided=%d, concretised=%d"
        % (prop, tier, len(inst), tot.paths, tot.queries, tot.solver_s, wall, tot.validated, complete, len(undecided), tot.concretizations)
    )
    for x in undecided[:8]:
        print("  undecided:", x[:1500])
    for x in mism[:5]:
        print("  mismatch:", x)
    for x in errors[:3]:
        print("  engine error:", x)
    for x in vac[:5]:
        print("  vacuous:", x)
    for i in inst:
        if i["skipped"]:
            print("  skipped:", i["harness"], i["skipped"])
    if viol:
        r, v = viol
        d = dict(
            check=mod, property=prop, tier=tier, harness=r["name"], params=r["params"], inputs=v["inputs"],
            failed=v["labels"], symbolic=v["symbolic_labels"],
        )
        os.makedirs(os.path.join(VERIF, "out"), exist_ok=True)
        h = hashlib.sha1(json.dumps(d, sort_keys=True, default=str).encode()).hexdigest()[:10]
        p = os.path.join(VERIF, "out", "%s-%s.json" % (prop, h))
        with open(p, "w") as f:
            json.dump(d, f, indent=1, default=str)
        print("  harness %s %s" % (r["name"], r["params"]))
        print("  failed: %s" % (v["labels"][:6],))
        print("  inputs: %s" % json.dumps(v["inputs"])[:800])
        print("VIOLATION property=%s replay=%s" % (prop, p))
        return 1
    decided = sum(i["paths"] for i in inst) - len(undecided)
    if not inst or decided <= 0 or len(errors) >= max(1, len(inst)):
        print("no answer")
        return 2
    return 0


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("check")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--jobs", type=int)
    ap.add_argument("--only")
    ap.add_argument("--debug", action="store_true")
    ap.add_argument("--replay")
    ap.add_argument("--total", type=float)
    a = ap.parse_args(argv)
    logging.disable(logging.CRITICAL)
    if a.replay:
        sys.exit(replay_file(a.replay))
    sys.exit(run_check(a.check, a.tier, a.jobs, a.only, a.debug, a.total))


if __name__ == "__main__":
    main()
