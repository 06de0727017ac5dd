"""Check runner: explores harness functions symbolically, discharges their assertions with the solver,
replays path models and counterexamples on the real code, writes evidence."""
import argparse
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import re
import signal
import subprocess
import sys
import threading
import time
import traceback
import types
import ast

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if VERIF not in sys.path:
    sys.path.insert(0, VERIF)
import z3
from sx import core, instr, strs, flt
from sx.core import SymInt, SymBool, Inconclusive, SxInternal, Infeasible

REPO = instr.REPO
if REPO not in sys.path:
    sys.path.insert(0, REPO)

DEEP_LITERAL_LIMIT = 60


# ---------------------------------------------------------------- contexts handed to harness functions
class BaseCtx:
    tier = "quick"

    def check_eq(self, a, b, label):
        self.check(self.eq(a, b), label)

    def eq(self, a, b):
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
            if len(a) != len(b):
                return False
            return self.And(*[self.eq(x, y) for x, y in zip(a, b)])
        return a == b


class SymCtx(BaseCtx):
    native = False
    lemmas = True   # a discharged assertion is available to later queries of the path

    def __init__(self, task):
        self.task = task
        self.eng = core.ENGINE()

    def begin(self):
        self.observed = []

    def int(self, name, lo, hi, split=False):
        v = self.eng.var(name, lo, hi)
        if split:
            v = core.conc(v)
        return v

    def pick(self, name, seq):
        """a nondeterministic element of a concrete sequence (forks)"""
        return seq[core.conc(self.eng.var(name, 0, len(seq) - 1))]

    def assume(self, c):
        self.eng.assume(c)

    def split(self, v):
        return core.conc(v)

    def bounded(self, v, lo, hi):
        """assume lo <= v <= hi and let interval reasoning use it"""
        if isinstance(v, core.SymInt):
            self.eng.assume(core.sand(v >= lo, v <= hi))
            r = core.SymInt.make(v.terms, v.const, lo, hi)
            if isinstance(r, core.SymInt):
                core.hint(r)
            return r
        self.assume(lo <= v <= hi)
        return v

    And = staticmethod(core.sand)
    Or = staticmethod(core.sor)
    Not = staticmethod(core.snot)
    ite = staticmethod(core.ite)

    @staticmethod
    def implies(a, b):
        return core.sor(core.snot(a), b)

    def obs(self, name, value):
        self.observed.append((name, value))

    def fail(self, label):
        self.check(False, label)

    def check(self, c, label):
        st = self.eng.stats
        t = self.task
        c = core.tb(c) if not isinstance(c, (strs.SymStr,)) else bool(c)
        eng = self.eng
        assert eng.nested is None
        if c is True:
            st.checks += 1
            st.checks_trivial += 1
            t.labels[label] = t.labels.get(label, 0) + 1
            return
        if eng.pos < len(eng.trail):
            e = eng.trail[eng.pos]
            eng.pos += 1
            if e[0] == "X":
                raise Infeasible()
            return
        st.checks += 1
        t.labels[label] = t.labels.get(label, 0) + 1
        neg = z3.BoolVal(True) if c is False else z3.Not(c.z)
        eng.ensure_model()
        excl = []
        for kf in t.known:
            if kf.get("label") and kf["label"] != label:
                continue
            k = t.known_cond(kf, eng)
            if k is not None:
                excl.append((kf, core.zb(k)))
        eng.solver.push()
        eng.solver.add(neg)
        r = eng.check()
        if r == z3.unknown:
            eng.solver.pop()
            raise Inconclusive("solver gave up on the assertion %r" % label)
        violated = r == z3.sat
        if violated:
            m = eng.get_model()
            if excl:
                for kf, k in excl:
                    r2 = eng.check(k)
                    if r2 == z3.sat:
                        t.known_hits.setdefault(kf["key"], t.values(eng.get_model()))
                eng.solver.add(z3.Not(z3.Or([k for _, k in excl])))
                r = eng.check()
                if r == z3.unknown:
                    eng.solver.pop()
                    raise Inconclusive("solver gave up on the assertion %r" % label)
                m = eng.get_model() if r == z3.sat else None
            if m is not None:
                t.counterexample(label, t.values(m))
        eng.solver.pop()
        # continue the path under the assertion
        eng.solver.push()
        eng.pos += 1
        if violated:
            if c is False:
                eng.trail.append(["X", None])
                raise Infeasible()
            eng.solver.add(c.z)
            if eng.check() != z3.sat:
                eng.trail.append(["X", None])
                raise Infeasible()
            eng.model = eng.get_model()
        elif self.lemmas:
            eng.solver.add(c.z)
        eng.trail.append(["C", None])


class ReplayCtx(BaseCtx):
    native = True

    def __init__(self, values):
        self.values = values
        self.observed = []
        self.failed = []
        self.checked = 0

    def int(self, name, lo, hi, split=False):
        v = self.values.get(name, lo)
        if not lo <= v <= hi:
            raise ReplayMismatch("input %s=%d outside [%d,%d]" % (name, v, lo, hi))
        return v

    def pick(self, name, seq):
        return seq[self.int(name, 0, len(seq) - 1)]

    def assume(self, c):
        if not c:
            raise AssumptionFailed()

    def split(self, v):
        return v

    def bounded(self, v, lo, hi):
        self.assume(lo <= v <= hi)
        return v

    @staticmethod
    def And(*a):
        return all(a)

    @staticmethod
    def Or(*a):
        return any(a)

    @staticmethod
    def Not(a):
        return not a

    @staticmethod
    def implies(a, b):
        return (not a) or bool(b)

    @staticmethod
    def ite(c, a, b):
        return a if c else b

    def obs(self, name, value):
        self.observed.append((name, value))

    def check(self, c, label):
        self.checked += 1
        if not c:
            self.failed.append(label)

    def fail(self, label):
        self.check(False, label)


class Hang(Exception):
    pass


class ReplayMismatch(BaseException):
    pass


class AssumptionFailed(BaseException):
    pass


# ---------------------------------------------------------------- library state
_LOCK = type(threading.Lock())


class Snapshot:
    """class- and module-level mutable state of a package, restored before every explored path"""

    def __init__(self, pkg):
        self.items = []
        for name, m in list(sys.modules.items()):
            if m is None or not (name == pkg or name.startswith(pkg + ".")):
                continue
            owners = [m]
            for v in list(vars(m).values()):
                if isinstance(v, type) and v.__module__ == name:
                    owners.append(v)
            for o in owners:
                for k, v in list(vars(o).items()):
                    if k.startswith("__") and k.endswith("__") or k in instr.HOOKS:
                        continue
                    if isinstance(v, (types.FunctionType, staticmethod, classmethod, property, types.ModuleType, type)):
                        continue
                    cp = list(v) if type(v) is list else dict(v) if type(v) is dict else set(v) if type(v) is set else None
                    self.items.append((o, k, v, cp))
        self.names = {id(o): (o, set(vars(o))) for o, _, _, _ in self.items}

    def restore(self):
        for o, names in self.names.values():
            if len(vars(o)) != len(names):
                for k in set(vars(o)) - names:
                    try:
                        delattr(o, k)
                    except AttributeError:
                        pass
        for o, k, v, cp in self.items:
            if vars(o).get(k) is not v:
                setattr(o, k, v)
            if cp is not None:
                if len(v) != len(cp) or v != cp:
                    if isinstance(v, list):
                        v[:] = cp
                    else:
                        v.clear()
                        v.update(cp)
            elif isinstance(v, _LOCK):
                if v.locked():
                    v.release()


def memo_years(mod):
    """LunarYear(y) is a function of y; keep the constructed fields per concrete year within a process"""
    cls = mod.LunarYear
    orig = cls.__init__
    memo = {}

    def init(self, lunar_year):
        y = core.conc(lunar_year)
        d = memo.get(y)
        if d is None:
            orig(self, y)
            memo[y] = {k: (list(v) if isinstance(v, list) else v) for k, v in self.__dict__.items()}
        else:
            for k, v in d.items():
                self.__dict__[k] = list(v) if isinstance(v, list) else v
    init._orig = orig
    cls.__init__ = init
    return memo


# ---------------------------------------------------------------- one task
class Task:
    def __init__(self, spec, prop, known, opts):
        self.spec = spec
        self.prop = prop
        self.known = known
        self.opts = opts
        self.labels = {}
        self.cex = []
        self.known_hits = {}
        self.samples = []
        self.mismatch = []
        self.inconclusive = None

    def values(self, model):
        out = {}
        for n, (lo, hi) in self.eng.inputs.items():
            v = model.eval(self.eng.zvars.get((n, lo, hi), z3.Int(n)), model_completion=True)
            try:
                v = v.as_long()
            except Exception:
                v = lo
            out[n] = min(max(v, lo), hi)
        return out

    def known_cond(self, kf, eng):
        if kf.get("task") and not re.fullmatch(kf["task"], self.spec["fn"]):
            return None
        env = {n: (SymInt.of_atom(core.atom(eng.zvars.get((n, lo, hi), z3.Int(n)), lo, hi)) if lo != hi else lo) for n, (lo, hi) in eng.inputs.items()}
        env.update(And=core.sand, Or=core.sor, Not=core.snot)
        env["P"] = self.spec.get("params", {})
        try:
            return core.tb(eval(kf["when"], {"__builtins__": {}}, env))
        except NameError:
            return None

    def counterexample(self, label, values):
        self.cex.append({"label": label, "values": values})


def evalv(v, model):
    if isinstance(v, SymInt):
        return model.eval(v.z, model_completion=True).as_long()
    if isinstance(v, SymBool):
        return z3.is_true(model.eval(v.z, model_completion=True))
    if isinstance(v, strs.SymStr):
        out = []
        for p in v.pieces:
            if isinstance(p, str):
                out.append(p)
            elif isinstance(p, strs.Dec):
                out.append(str(evalv(p.lin, model)).zfill(p.width))
            else:
                out.append(p.table[evalv(p.idx, model) - p.off])
        return "".join(out)
    if isinstance(v, flt.SymFloat):
        if v.base is not None:
            import numpy as np
            return float(v.fn(np.array([evalv(v.base, model)]))[0])
        if v.exact():
            from fractions import Fraction
            return float(Fraction(evalv(v.an, model), v.ad))
        return None
    if isinstance(v, (list, tuple)):
        return [evalv(x, model) for x in v]
    if isinstance(v, (int, str, float, bool, type(None))):
        return v
    return None


def plain(v):
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if isinstance(v, (int, str, float, bool, type(None))):
        return v
    return None


def same(a, b):
    if a is None or b is None:
        return True
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b


_S = {}


def native_run(hmod, fn, params, values):
    """the harness function on the real, uninstrumented code"""
    ctx = ReplayCtx(values)
    ctx.tier = _S.get("tier", "quick")
    core._ENGINE[0], saved = None, core._ENGINE[0]

    def hang(sig, frame):
        raise Hang("no return within 30 s")
    signal.signal(signal.SIGALRM, hang)
    try:
        try:
            signal.setitimer(signal.ITIMER_REAL, 30)
            getattr(hmod, fn)(ctx, **params)
            kind = "ok"
            exc = None
        except AssumptionFailed:
            kind = "infeasible"
            exc = None
        except ReplayMismatch as e:
            kind = "mismatch"
            exc = str(e)
        except Exception as e:
            kind = "exc"
            exc = "%s: %s @ %s" % (type(e).__name__, e, exc_where(e))
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        core._ENGINE[0] = saved
    return kind, exc, ctx


def exc_where(e):
    tb = e.__traceback__
    out = []
    while tb is not None:
        f = tb.tb_frame.f_code
        if "lunar_python" in f.co_filename or "harness" in f.co_filename:
            out.append("%s:%s" % (os.path.basename(f.co_filename), f.co_name))
        tb = tb.tb_next
    return " > ".join(out[-4:])


def run_task(spec, prop, known, opts):
    """explore one task; returns a picklable result"""
    t0 = time.time()
    res = _run_once(spec, prop, known, opts)
    bad = [c for c in res["cex"] if not c["confirmed"]] or res["mismatch"]
    if bad and not any(c["confirmed"] for c in res["cex"]):
        # the merged encoding and the real code disagree on a concrete input: fall back to plain forking
        res2 = _run_once(spec, prop, known, dict(opts, plain=True))
        res2["fallback"] = repr((res["mismatch"] + [c for c in res["cex"] if not c["confirmed"]])[:1])
        if not res2["inconclusive"] or not res["inconclusive"]:
            res = res2
    res["wall"] = time.time() - t0
    return res


def _run_once(spec, prop, known, opts):
    core.reset_atoms()
    eng = core.Engine(timeout_ms=opts.get("timeout_ms", 60000), max_paths=opts.get("max_paths", 60000))
    core._ENGINE[0] = eng
    eng.deadline = time.time() + opts.get("task_s", 300)
    instr.MERGE[0] = not opts.get("plain")
    instr.SUMMARISE[0] = not opts.get("plain") and spec.get("summarise", True)
    task = Task(spec, prop, known, opts)
    task.eng = eng
    ctx = SymCtx(task)
    ctx.tier = opts.get("tier", "quick")
    fn = getattr(_S["sym"], spec["fn"])
    params = spec.get("params", {})
    validate = opts.get("validate", True) and spec.get("validate", True)
    vbudget = [opts.get("validate_s", 60)]

    def body():
        _S["snap"].restore()
        eng.inputs = {}
        ctx.begin()
        hook = _S.get("pre")
        if hook:
            hook(ctx)
        fn(ctx, **params)

    def confirm(label, values):
        kind, exc, rc = native_run(_S["nat"], spec["fn"], params, values)
        eng.stats.replays += 1
        _S["nsnap"].restore()
        if label.startswith("exception"):
            return kind == "exc", exc or kind
        return (label in rc.failed or (kind == "exc")), exc or kind

    def on_path(kind, payload):
        n0 = len(task.cex)
        if kind == "abort":
            return
        eng.ensure_model()
        vals = task.values(eng.model)
        if kind == "exc":
            lab = "exception %s" % type(payload).__name__
            hit = False
            for kf in task.known:
                if kf.get("label") == "exception":
                    k = task.known_cond(kf, eng)
                    if k is None or not is_sat_true(k, eng):
                        continue
                    task.known_hits.setdefault(kf["key"], vals)
                    r = eng.check(z3.Not(core.zb(k)))
                    if r == z3.sat:
                        vals = task.values(eng.get_model())
                    else:
                        hit = True
                        break
            if not hit:
                task.counterexample(lab, vals)
                task.cex[-1]["detail"] = "%s: %s @ %s" % (type(payload).__name__, payload, exc_where(payload))
        if validate and kind == "ok" and vbudget[0] > 0:
            t = time.time()
            k2, e2, rc = native_run(_S["nat"], spec["fn"], params, vals)
            eng.stats.replays += 1
            vbudget[0] -= time.time() - t
            if k2 != "ok":
                if k2 == "exc":
                    task.counterexample("exception on replay", vals)
                    task.cex[-1]["detail"] = e2
                else:
                    task.mismatch.append({"why": "native run ended with %s %s" % (k2, e2), "values": vals})
            else:
                new = [l for l in rc.failed]
                for l in new:
                    if not known_hit(task, l, vals, spec):
                        task.counterexample(l, vals)
                a = [(n, evalv(v, eng.model)) for n, v in ctx.observed]
                b = [(n, plain(v)) for n, v in rc.observed]
                if len(a) != len(b) or any(x[0] != y[0] or not same(x[1], y[1]) for x, y in zip(a, b)):
                    task.mismatch.append({"why": "observations differ: %r vs native %r" % (a[:20], b[:20]), "values": vals})
        if len(task.samples) < 2:
            task.samples.append(vals)
        if len(task.cex) >= 3:
            raise StopTask()

    try:
        eng.explore(body, on_path)
    except StopTask:
        pass
    except Inconclusive as e:
        task.inconclusive = str(e)
    except RecursionError:
        task.inconclusive = "recursion limit"
    except z3.Z3Exception as e:
        task.inconclusive = "z3: %s" % e
    cex = []
    for c in task.cex[:4]:
        ok, detail = confirm(c["label"], c["values"])
        c["confirmed"] = bool(ok)
        c["native"] = detail
        c["spec"] = {"fn": spec["fn"], "params": params}
        cex.append(c)
    if not task.labels and not cex and not task.inconclusive and not task.known_hits:
        task.mismatch.append({"why": "vacuous: no assertion reached", "values": {}})
    return dict(name=spec.get("name", spec["fn"]), fn=spec["fn"], stats=eng.stats.as_dict(), labels=task.labels, cex=cex,
                known=task.known_hits, samples=task.samples, mismatch=task.mismatch[:3], inconclusive=task.inconclusive,
                touched=sorted(instr.TOUCHED), fallback=False)


def known_hit(task, label, vals, spec):
    for kf in task.known:
        if kf.get("label") and kf["label"] != label:
            continue
        if kf.get("task") and not re.fullmatch(kf["task"], spec["fn"]):
            continue
        try:
            env = dict(vals)
            env.update(And=lambda *a: all(a), Or=lambda *a: any(a), Not=lambda a: not a, P=spec.get("params", {}))
            if eval(kf["when"], {"__builtins__": {}}, env):
                task.known_hits.setdefault(kf["key"], vals)
                return True
        except NameError:
            pass
    return False


def is_sat_true(k, eng):
    return k is True or (k is not False and eng.check(core.zb(k)) == z3.sat)


class StopTask(BaseException):
    pass


def _worker(args):
    spec, prop, known, opts = args
    try:
        sys.setrecursionlimit(20000)
        return run_task(spec, prop, known, opts)
    except BaseException as e:
        return dict(name=spec.get("name", spec["fn"]), fn=spec["fn"], error="%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()))


# ---------------------------------------------------------------- loading
def load(prop, tier, symbolic=True):
    path = os.path.join(VERIF, "harness", prop.lower() + ".py")
    _S["tier"] = tier
    import lunar_python
    assert os.path.abspath(os.path.dirname(os.path.dirname(lunar_python.__file__))) == os.path.abspath(REPO), lunar_python.__file__
    import pkgutil
    for m in pkgutil.walk_packages(lunar_python.__path__, "lunar_python."):
        importlib.import_module(m.name)
    if os.path.join(VERIF, "harness") not in sys.path:
        sys.path.insert(0, os.path.join(VERIF, "harness"))
    if symbolic:
        instr.install(REPO)
        for m in pkgutil.walk_packages(lunar_python.__path__, instr.ALIAS + "."):
            importlib.import_module(m.name)
        _S["sym"] = instr.load_harness(path, "h_sym", True)
    _S["nat"] = instr.load_harness(path, "h_nat", False)
    _S["snap"] = Snapshot(instr.ALIAS)
    _S["nsnap"] = Snapshot("lunar_python")
    if symbolic and getattr(_S["nat"], "MEMO_YEARS", True):
        memo_years(sys.modules[instr.ALIAS + ".LunarYear"])
        memo_years(sys.modules["lunar_python.LunarYear"])
        _S["snap"] = Snapshot(instr.ALIAS)
        _S["nsnap"] = Snapshot("lunar_python")
    return _S["nat"]


def source_years():
    """integer literals of the current source that look like years (boundary values worth a task of their own)"""
    ys = set()
    root = os.path.join(REPO, "lunar_python")
    for d, _, fs in os.walk(root):
        for f in fs:
            if not f.endswith(".py") or f in ("HolidayUtil.py",):
                continue
            tree = ast.parse(open(os.path.join(d, f), encoding="utf-8").read())
            skip = set()
            for n in ast.walk(tree):
                if isinstance(n, (ast.Tuple, ast.List, ast.Dict, ast.Set)):
                    els = list(ast.iter_child_nodes(n))
                    if len(els) > 12:
                        for x in ast.walk(n):
                            skip.add(id(x))
            for n in ast.walk(tree):
                if isinstance(n, ast.Constant) and type(n.value) is int and id(n) not in skip and 13 <= n.value <= 9999:
                    ys.add(n.value)
    return sorted(ys)


def known_findings(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get("known", []) if k["property"] == prop]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "8")))
    ap.add_argument("--only", default=None)
    ap.add_argument("--budget", type=float, default=None, help="wall-clock budget in seconds")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    prop = a.property
    t0 = time.time()
    sys.setrecursionlimit(20000)
    seed = int(os.environ.get("VERIF_SEED", "1"))
    hm = load(prop, a.tier)
    budget = a.budget or (getattr(hm, "BUDGET_QUICK", 600) if a.tier == "quick" else getattr(hm, "BUDGET_THOROUGH", 3000))
    specs = hm.tasks(a.tier, Info())
    if a.only:
        specs = [s for s in specs if re.search(a.only, s.get("name", s["fn"]))]
    opts = dict(tier=a.tier, timeout_ms=getattr(hm, "SOLVER_TIMEOUT_MS", 60000), task_s=getattr(hm, "TASK_S", 240 if a.tier == "quick" else 900),
                max_paths=getattr(hm, "MAX_PATHS", 60000), validate_s=30 if a.tier == "quick" else 60)
    known = known_findings(prop)
    setup = getattr(hm, "setup", None)
    if setup:
        setup(a.tier)
    results = []
    errors = []
    stopped = False
    args = [(s, prop, known, opts) for s in specs]
    violation = None
    if a.jobs <= 1:
        it = map(_worker, args)
        pool = None
    else:
        pool = mp.get_context("fork").Pool(a.jobs, maxtasksperchild=40)
        it = pool.imap_unordered(_worker, args, 1)
    done = 0
    pend = len(args)
    try:
        while done < pend:
            try:
                if pool is not None:
                    left = budget - (time.time() - t0)
                    if left <= 0:
                        stopped = True
                        break
                    r = it.next(timeout=left)
                else:
                    r = next(it)
            except mp.TimeoutError:
                stopped = True
                break
            except StopIteration:
                break
            done += 1
            if "error" in r:
                errors.append(r)
                if a.v:
                    print("ERROR", r["name"], r["error"])
                continue
            results.append(r)
            if a.v:
                s = r["stats"]
                print("%-40s %6.1fs paths=%d br=%d q=%d solver=%.1fs checks=%d/%d rep=%d%s%s" % (r["name"], r["wall"], s["paths"], s["branches"], s["queries"], s["solver_s"], s["checks"], s["checks_trivial"], s["replays"], " INCONCLUSIVE " + r["inconclusive"] if r["inconclusive"] else "", " FALLBACK " + r["fallback"] if r["fallback"] else ""))
                for m in r["mismatch"]:
                    print("   MISMATCH", m)
                for c in r["cex"]:
                    print("   CEX", c)
                sys.stdout.flush()
            for c in r["cex"]:
                if c["confirmed"] and violation is None:
                    v = write_replay(prop, c, a.tier)
                    if replay_subprocess(v):
                        violation = (v, c, r)
                    else:
                        c["confirmed"] = False
                        errors.append(dict(name=r["name"], error="counterexample confirmed in-process but not in a fresh process: %r" % c))
            if violation and not a.v:
                break
    finally:
        if pool is not None:
            pool.terminate()
            pool.join()
    # ---- report
    tot = core.Stats().as_dict()
    for r in results:
        for k, v in r["stats"].items():
            tot[k] += v
    labels = {}
    touched = set()
    khits = {}
    for r in results:
        for k, v in r["labels"].items():
            labels[k] = labels.get(k, 0) + v
        touched |= set(r["touched"])
        for k, v in r["known"].items():
            khits.setdefault(k, v)
    incomplete = [(r["name"], r["inconclusive"]) for r in results if r["inconclusive"]]
    unfaithful = [(r["name"], m) for r in results for m in r["mismatch"]]
    unconf = [(r["name"], c) for r in results for c in r["cex"] if not c["confirmed"]]
    wall = time.time() - t0
    nviol = 1 if violation else 0
    ev = dict(property=prop, tier=a.tier, seed=seed, level=getattr(hm, "LEVEL", "model_checking"), wall_s=round(wall, 2), violations=nviol,
              assumptions=list(getattr(hm, "ASSUMPTIONS", [])),
              coverage=dict(states=tot["paths"], transitions=tot["branches"], traces_validated_against_impl=tot["replays"],
                            tasks=len(specs), tasks_completed=len(results) - len(incomplete), tasks_incomplete=len(incomplete) + (len(specs) - len(results)),
                            queries_discharged=tot["queries"], solver_s=round(tot["solver_s"], 2), assertions_discharged=tot["checks"],
                            assertions_decided_by_simplification=tot["checks_trivial"], unknown_answers=tot["unknown"],
                            function_summaries=tot["summaries"], forks=tot["forks"],
                            functions_encoded=sorted(q for q in touched if not q.startswith("harness")),
                            assertions={k: labels[k] for k in sorted(labels)},
                            bounds=hm.bounds(a.tier) if hasattr(hm, "bounds") else "", outside=getattr(hm, "OUTSIDE", ""),
                            known_findings=sorted(khits), encoded_from=REPO,
                            samples=[dict(task=r["name"], inputs=x) for r in results[:40] for x in r["samples"][:1]][:12]))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, ensure_ascii=False, indent=1)
    for k in known:
        if k["key"] in khits:
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    for n, w in incomplete:
        print("INCOMPLETE task=%s: %s" % (n, w))
    if stopped:
        print("INCOMPLETE: wall budget reached after %d of %d tasks" % (len(results), len(specs)))
    print("%s %s: %d/%d tasks, %d paths, %d assertions (%d by simplification), %d queries, solver %.1fs, %d native replays, wall %.1fs" % (
        prop, a.tier, len(results), len(specs), tot["paths"], tot["checks"], tot["checks_trivial"], tot["queries"], tot["solver_s"], tot["replays"], wall))
    if violation:
        v, c, r = violation
        print("counterexample in %s: %s with %s (native: %s)" % (r["name"], c["label"], c["values"], c["native"]))
        print("VIOLATION property=%s replay=%s" % (prop, v))
        return 1
    if errors:
        for e in errors[:5]:
            print("ERROR task=%s %s" % (e["name"], e["error"]), file=sys.stderr)
        return 2
    if unfaithful or unconf:
        for n, m in (unfaithful + unconf)[:5]:
            print("UNFAITHFUL task=%s %r" % (n, m), file=sys.stderr)
        return 2
    if not results or tot["checks"] == 0:
        print("no assertion was reached", file=sys.stderr)
        return 2
    return 0


class Info:
    """facts about the current source that task lists may use"""

    def __init__(self):
        self._y = None

    @property
    def source_years(self):
        if self._y is None:
            self._y = source_years()
        return self._y


def write_replay(prop, c, tier):
    d = os.path.join(VERIF, "out")
    os.makedirs(d, exist_ok=True)
    body = dict(property=prop, label=c["label"], values=c["values"], spec=c["spec"], detail=c.get("detail"), native=c.get("native"), tier=tier)
    h = hashlib.sha1(json.dumps([body["label"], body["values"], body["spec"]], sort_keys=True).encode()).hexdigest()[:10]
    p = os.path.join(d, "%s-%s.json" % (prop, h))
    with open(p, "w") as f:
        json.dump(body, f, ensure_ascii=False, indent=1)
    return p


def replay_subprocess(path):
    try:
        r = subprocess.run([sys.executable, os.path.join(VERIF, "replay.py"), path], capture_output=True, text=True, timeout=120)
    except subprocess.TimeoutExpired:
        return False
    return r.returncode == 1


def replay_main(path):
    body = json.load(open(path))
    load(body["property"], body.get("tier", "quick"), symbolic=False)
    kind, exc, ctx = native_run(_S["nat"], body["spec"]["fn"], body["spec"]["params"], body["values"])
    print("replay of %s %s(%s) with %s" % (body["property"], body["spec"]["fn"], body["spec"]["params"], body["values"]))
    for n, v in ctx.observed:
        print("  observed %s = %r" % (n, plain(v)))
    print("  outcome: %s %s; failed assertions: %s" % (kind, exc or "", ctx.failed))
    bad = bool(ctx.failed) or kind == "exc"
    print("VIOLATED" if bad else "HOLDS")
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
