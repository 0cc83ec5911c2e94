"""Check framework: build + dump the real code, run roots symbolically, decide goals, replay, evidence."""
import ast
import fcntl
import glob
import hashlib
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)

from terms import *            # noqa
import terms
from values import *           # noqa
from interp import *           # noqa
import interp
import smt

REPO = "/repo"
BUILD = os.path.join(VERIF, "build")
TC = "1.76-x86_64-unknown-linux-gnu"
NIGHTLY = "/root/.rustup/toolchains/nightly-x86_64-unknown-linux-gnu"

U8, U16, U32, U64, U128 = [(1 << b) - 1 for b in (8, 16, 32, 64, 128)]
MAX_TICK = 221818
MAX_SP = 65535383934512647000000000000
MIN_SP = 15258932000000000000


class Internal(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr)
    sys.stderr.flush()


# ------------------------------------------------------------------ building
def source_hash():
    h = hashlib.sha256()
    fs = []
    for root in (REPO,):
        for d, ds, names in os.walk(root):
            ds[:] = [x for x in ds if x not in ("target", ".git", "node_modules")]
            for n in names:
                if n.endswith((".rs", ".toml", ".lock")):
                    fs.append(os.path.join(d, n))
    for d in ("harness/src", "harness/src/bin"):
        fs += glob.glob(os.path.join(VERIF, d, "*.rs"))
    fs += [os.path.join(VERIF, "harness/Cargo.toml"), os.path.join(VERIF, "driver/src/main.rs"), os.path.join(VERIF, "engine/stops.txt")]
    for f in sorted(set(fs)):
        if os.path.exists(f):
            h.update(f.encode())
            h.update(open(f, "rb").read())
    return h.hexdigest()


def run_cmd(cmd, env=None, cwd=None, timeout=800):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    if p.returncode != 0:
        raise Internal("command failed (%d): %s\n%s" % (p.returncode, " ".join(cmd), p.stdout[-4000:]))
    return p.stdout


def stale(target):
    """cargo decides by mtime; remove the fingerprints of the workspace crates so that every change is seen"""
    for pat in ("oraiswap*", "decimal*", "vharness*", "traceable*"):
        for f in glob.glob(os.path.join(target, "*", ".fingerprint", pat)):
            subprocess.call(["rm", "-rf", f])


def ensure_built():
    """MIR dump and native replayer for /repo's current tree"""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        drv = os.path.join(BUILD, "driver/release/mirdump")
        dh = hashlib.sha256(open(os.path.join(VERIF, "driver/src/main.rs"), "rb").read()).hexdigest()
        dst = os.path.join(BUILD, "driver.hash")
        if not os.path.exists(drv) or not os.path.exists(dst) or open(dst).read() != dh:
            run_cmd(["bash", os.path.join(VERIF, "driver/build.sh")])
            open(dst, "w").write(dh)
        h = source_hash()
        stamp = os.path.join(BUILD, "stamp")
        mir = os.path.join(BUILD, "mir.json")
        rep = os.path.join(BUILD, "native/release/replay")
        if os.path.exists(stamp) and open(stamp).read() == h and os.path.exists(mir) and os.path.exists(rep):
            return
        if os.path.exists(stamp):
            os.unlink(stamp)
        t0 = time.time()
        hd = os.path.join(VERIF, "harness")
        t1 = os.path.join(BUILD, "harness")
        t2 = os.path.join(BUILD, "native")
        stale(t1)
        stale(t2)
        nat = subprocess.Popen(
            ["cargo", "build", "--release", "--offline", "--bin", "replay"], cwd=hd,
            env=dict(os.environ, RUSTUP_TOOLCHAIN=TC, CARGO_TARGET_DIR=t2, RUSTFLAGS="-Awarnings"),
            stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        try:
            run_cmd(["cargo", "check", "--offline", "--lib"], cwd=hd, env={
                "RUSTUP_TOOLCHAIN": TC, "RUSTC": NIGHTLY + "/bin/rustc",
                "RUSTC_WORKSPACE_WRAPPER": drv,
                "MIRDUMP_OUT": mir, "MIRDUMP_STOPS": os.path.join(HERE, "stops.txt"),
                "RUSTFLAGS": "-Zalways-encode-mir -Zmir-opt-level=0 -Awarnings",
                "CARGO_TARGET_DIR": t1})
        finally:
            out, _ = nat.communicate()
        if nat.returncode != 0:
            raise Internal("native replayer build failed\n" + out[-4000:])
        open(stamp, "w").write(h)
        log("built in %.1fs" % (time.time() - t0))


# ------------------------------------------------------------------ native replay
class Native:
    def __init__(self):
        self.p = None
        self.n = 0

    def call(self, root, args):
        if self.p is None or self.p.poll() is not None:
            self.p = subprocess.Popen([os.path.join(BUILD, "native/release/replay")], stdin=subprocess.PIPE,
                                      stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        self.p.stdin.write(root + "".join("\t" + enc_arg(a) for a in args) + "\n")
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        self.n += 1
        if not line:
            return ("panic",)
        return norm_out(ast.literal_eval(line.strip()))


def enc_arg(a):
    if isinstance(a, bool):
        return "1" if a else "0"
    if isinstance(a, int):
        return str(a)
    if isinstance(a, str):
        a = list(a.encode())
    if isinstance(a, (bytes, bytearray)):
        a = list(a)
    return ",".join(enc_arg(x) for x in a)


def norm_out(x):
    if isinstance(x, list):
        return [norm_out(y) for y in x]
    if isinstance(x, tuple):
        if len(x) == 2 and x[0] == "err":
            return ("err", None)
        return tuple(norm_out(y) for y in x)
    return x


def to_engine(v):
    """python input -> machine value"""
    if isinstance(v, str):
        return Seq(tuple(v.encode()))
    if isinstance(v, (list, tuple)):
        return Seq(tuple(to_engine(x) for x in v))
    return v


def conc_input(v, env):
    if isinstance(v, bool) or isinstance(v, int):
        return v
    if isinstance(v, B):
        return bool(evaluate(v, env))
    if isinstance(v, T):
        return evaluate(v, env)
    if isinstance(v, str):
        return list(v.encode())
    return [conc_input(x, env) for x in v]


def to_py(ex, st, ty, v):
    """machine value -> python structure of terms, by type"""
    if isinstance(v, (Ptr, Sl)):
        v = ex.deref(st, v)
    t = ex.p.types[ty]
    k = t["k"]
    if k in ("int", "bool", "char"):
        return v
    if k == "tuple":
        return tuple(to_py(ex, st, e, x) for e, x in zip(t["elems"], v.f))
    if k == "array":
        return [to_py(ex, st, t["elem"], x) for x in v.f]
    if k == "adt":
        n = t["adt"].split("::")[-1]
        if n == "String":
            if isinstance(v, Opaque):
                return v
            return list(v.f)
        if n == "Vec":
            et = vec_elem(ex, t)
            return [to_py(ex, st, et, x) for x in v.f]
        if n == "Option":
            return None if v.v == 0 else ("some", to_py(ex, st, t["variants"][1]["fields"][0][1], v.f[0]))
        if n == "Result":
            if v.v == 1:
                return ("err", None)
            return ("ok", to_py(ex, st, t["variants"][0]["fields"][0][1], v.f[0]))
    raise Unsupported("to_py " + t["n"])


def vec_elem(ex, t):
    ta = t.get("targs") or t.get("args")
    if ta:
        return ta[0]
    raise Unsupported("vec elem of " + t["n"])


def ev(x, env, ufs=None):
    """evaluate a python structure of terms"""
    if isinstance(x, (T, B)):
        return evaluate(x, env, ufs)
    if isinstance(x, list):
        return [ev(y, env, ufs) for y in x]
    if isinstance(x, tuple):
        return tuple(ev(y, env, ufs) for y in x)
    return x


# ------------------------------------------------------------------ symbolic inputs
_ivars = {}


def ivar(name, lo, hi):
    """variable of that name and range (the same name with another range is another variable)"""
    vs = _ivars.setdefault(name, [])
    if (lo, hi) not in vs:
        vs.append((lo, hi))
    k = vs.index((lo, hi))
    return var(name + ("_%d" % k if k else ""), lo, hi)


def sbytes(name, n, lo=97, hi=122):
    return [var("%s_%d" % (name, i), lo, hi) for i in range(n)]


def seq_eq(a, b):
    """equality of two python lists of terms"""
    if isinstance(a, str):
        a = list(a.encode())
    if isinstance(b, str):
        b = list(b.encode())
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        return a is b
    if len(a) != len(b):
        return False
    return And(*[x_eq(x, y) for x, y in zip(a, b)])


def x_eq(a, b):
    """structural equality"""
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    if isinstance(a, (bool, B)) or isinstance(b, (bool, B)):
        if isinstance(a, int) and not isinstance(a, bool):
            a = bool(a)
        if isinstance(b, int) and not isinstance(b, bool):
            b = bool(b)
        if isinstance(a, T):
            a = eq(a, 1)
        if isinstance(b, T):
            b = eq(b, 1)
        return Iff(a, b)
    if isinstance(a, (int, T)) and isinstance(b, (int, T)):
        return eq(a, b)
    if isinstance(a, str):
        a = list(a.encode())
    if isinstance(b, str):
        b = list(b.encode())
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return False
        return And(*[x_eq(x, y) for x, y in zip(a, b)])
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        return a is b
    return False


# ------------------------------------------------------------------ checks
_prog = None


def program():
    global _prog
    if _prog is None:
        ensure_built()
        _prog = Program(os.path.join(BUILD, "mir.json"))
    return _prog


def default_addr_validate(ex, st, v):
    """stand-in of harness VApi: strings ending in 'n' (and empty ones) are native denoms"""
    if isinstance(v, Opaque):
        raise Unsupported("addr_validate of opaque")
    if not v.f:
        return err(Opaque("StdError"))
    c = eq(v.f[-1], ord("n"))
    okv = ok(Agg(0, (v,)))
    if c is True:
        return err(Opaque("StdError"))
    if c is False:
        return okv
    return Alts([(Not(c), okv), (c, err(Opaque("StdError")))])


class Check:
    def __init__(self, pid, title=""):
        self.pid = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.native = Native()
        self.bounds = []
        self.assume = []
        self.stats = {"paths": 0, "branches": 0, "steps": 0, "goals": 0, "discharged": 0, "validated": 0, "infeasible": 0, "reach": 0,
                      "ignored_panics": 0}
        self.fns = set()
        self.notes = set()
        self.samples = []
        self.violations = []
        self.known = []
        self.undecided = []
        self.kf = load_known(pid)
        self.validate_per_run = 3
        self.scen = 0
        self.thorough = self.tier == "thorough"
        smt.DEADLINE = None if self.thorough else self.t0 + 760

    # -------------------------------------------------------------- run one scenario
    def interp(self, feas=None, ignore_panics=True, summaries=None, max_steps=400000, max_paths=20000, contracts=None):
        ex = Interp(program(), feas=feas, ignore_panics=ignore_panics, max_steps=max_steps, max_paths=max_paths)
        ex.on_addr_validate = default_addr_validate
        if summaries:
            ex.summaries.update(summaries)
        if contracts:
            ex.contracts.update(contracts)
            ex.hooked = {}
        return ex

    def run(self, root, inputs, pre=(), feas="solver", ignore_panics=True, summaries=None, prune=True, **kw):
        """explore root(inputs) under pre; returns list of (conds, bnd, out)"""
        ex = self.interp(smt.feasible if feas == "solver" else feas, ignore_panics, summaries, **kw)
        st = State()
        for c in pre:
            if not st.path.assume(c):
                return []
        args = [Dyn(Ptr(("s", 0), ()), None)] + [to_engine(v) for v in inputs]
        inst = ex.p.roots.get(root)
        if inst is None:
            raise Unsupported("root %s missing" % root)
        ex.start(root, args, st)
        rty = ex.p.fns[inst]["body"]["locals"][0]
        rty = rty["ty"] if isinstance(rty, dict) else rty
        out = []
        for s in ex.run(st):
            if s.outcome == "panic":
                o = ("panic", s.ret)
            else:
                o = to_py(ex, s, rty, s.ret)
            if prune and not (smt.feasible_real(s.path) if feas is smt.feasible_real else smt.feasible(s.path, 1000)):
                self.stats["infeasible"] += 1
                continue
            out.append(PathResult(s, o))
        self.stats["paths"] += len(out)
        self.stats["branches"] += ex.stats["branches"]
        self.stats["steps"] += ex.stats["steps"]
        self.stats["ignored_panics"] += ex.stats["assumed_panics"]
        for i in ex.fns_used:
            self.fns.add(base_name(ex.p.fns[i]["n"]))
        self.notes |= ex.notes
        return out

    def scenario(self, name, root, inputs, post, pre=(), ufs=None, budget=40, hints=None, need_reach=None, expect=None, **kw):
        """symbolically run root and decide post on every path.
        post(inputs, out) -> [(label, term)]; works on terms and on concrete values."""
        self.scen += 1
        t0 = time.time()
        paths = self.run(root, inputs, pre, **kw)
        if not paths:
            raise Internal("%s: no feasible path (vacuous scenario)" % name)
        jobs = []
        for pr in paths:
            for label, g in post(inputs, pr.out):
                g = pr.path.simp(g) if not isinstance(g, bool) else g
                self.stats["goals"] += 1
                if g is True:
                    self.stats["discharged"] += 1
                    continue
                h = hints(inputs, pr.out) if hints else ()
                jobs.append((pr, label, g, h))
        for (pr, label, g, h), r in zip(jobs, smt.prove_all([(pr.path.conds, g, pr.path.bnd, budget, ufs, h) for pr, label, g, h in jobs], stop=not self.kf)):
            if r is None:
                continue
            if os.environ.get("VERIF_SLOW") and r.time > 1:
                log("    slow %.1fs %s %s by %s" % (r.time, label, r.verdict, r.by))
            if r.verdict == "proved":
                self.stats["discharged"] += 1
            elif r.verdict == "sat":
                self.report(name, root, inputs, post, r.env, label, ufs)
            else:
                self.undecided.append("%s: %s (path of %d conditions)" % (name, label, len(pr.path.conds)))
        t1 = time.time()
        validated = 0
        for pr in paths:
            if validated < self.validate_per_run and time.time() - t1 < 8:
                if self.validate(name, root, inputs, pr, ufs):
                    validated += 1
        log("  [%s] %s: %d paths, %.1fs (%.1fs validating)" % (self.pid, name, len(paths), time.time() - t0, time.time() - t1))
        return paths

    def reachable(self, name, paths, pred):
        """vacuity guard: some path must satisfy pred(out)"""
        for pr in paths:
            if pred(pr.out):
                self.stats["reach"] += 1
                return
        raise Internal("%s: expected outcome not reachable (vacuous)" % name)

    def validate(self, name, root, inputs, pr, ufs=None):
        """encoding validation: a model of the path condition is run natively and must give the encoded result"""
        env = self.model_of(pr, inputs)
        if env is None:
            return False
        try:
            exp = ev(pr.out, env, ufs)
        except EvalError:
            return False
        ci = [conc_input(v, env) for v in inputs]
        got = self.native.call(root, ci)
        self.stats["validated"] += 1
        if has_opaque(exp):
            return True
        if not same(exp, got):
            if exp[:1] == ("panic",) if isinstance(exp, tuple) else False:
                if got == ("panic",):
                    return True
            raise Internal("%s: encoding disagrees with native run\n inputs %s\n encoded %s\n native %s" % (name, ci, exp, got))
        if len(self.samples) < 4:
            self.samples.append({"scenario": name, "root": root, "inputs": str(ci)[:400], "native_result": str(got)[:400]})
        return True

    def model_of(self, pr, inputs):
        r, env = smt.z3_quick(pr.path.conds, None, pr.path.bnd, 2000)
        if r == "sat":
            full = [x for x in flat_terms(inputs)]
            e = smt.check_env(list(pr.path.conds), None, smt.complete_env(full, env))
            if e is not None:
                return smt.complete_env(full, e)
        e = smt.ladder(pr.path.conds, False, pr.path.bnd, 2)
        if e is not None:
            return smt.complete_env(list(flat_terms(inputs)), e)
        return None

    def report(self, name, root, inputs, post, env, label, ufs=None):
        env = smt.complete_env(list(flat_terms(inputs)), env)
        ci = [conc_input(v, env) for v in inputs]
        got = self.native.call(root, ci)
        bad = None
        if not (isinstance(got, tuple) and got and got[0] in ("noroot",)):
            try:
                for l, g in post(ci, got):
                    if l.startswith("reach:"):
                        continue
                    if isinstance(g, (T, B)):
                        g = evaluate(g, env, ufs)
                    if not g:
                        bad = l
                        break
            except (EvalError, TypeError, ValueError, KeyError, IndexError) as e:
                raise Internal("%s: replay evaluation failed for %s: %r (native %s)" % (name, label, e, got))
        if bad is None:
            raise Internal("%s: counterexample for '%s' does not reproduce natively\n inputs %s\n native %s" % (name, label, ci, got))
        self.violation(name, bad, {"root": root, "args": ci, "native_result": str(got)})

    def violation(self, name, label, data):
        for k in self.kf:
            if k.get("scenario") == name and k.get("label") == label and match_known(k, data):
                if k not in self.known:
                    self.known.append(k)
                return
        key = (name, label)
        if any(v[0] == key for v in self.violations):
            return
        if hasattr(self, "raw_viol"):
            self.raw_viol.append((key, data))
            self.violations.append((key, None))
            return
        d = os.path.join(BUILD, "replay")
        os.makedirs(d, exist_ok=True)
        f = os.path.join(d, "%s_%d.json" % (self.pid, len(self.violations)))
        data = dict(data, property=self.pid, scenario=name, broken=label)
        data["how"] = "echo -e '<root>\\t<args>' | /verif/build/native/release/replay ; line: " + (
            data["root"] + "".join("\\t" + enc_arg(a) for a in data["args"]) if "root" in data and "args" in data else "")
        json.dump(data, open(f, "w"), indent=1)
        self.violations.append((key, f))
        log("VIOLATION-DETAIL %s %s: %s" % (self.pid, name, label))

    def prove_goal(self, name, conds, goal, bnd=None, budget=40, ufs=None, hints=()):
        self.stats["goals"] += 1
        r = smt.prove(conds, goal, bnd, budget=budget, ufs=ufs, hints=hints)
        if r.verdict == "proved":
            self.stats["discharged"] += 1
        return r

    # -------------------------------------------------------------- parallel scenarios
    def par(self, tasks, workers=7, inner=1):
        """run tasks (callables taking the check) in worker processes and merge what they found"""
        import multiprocessing as mp
        program()
        workers = min(workers, len(tasks))
        if workers <= 1 or os.environ.get("VERIF_SERIAL"):
            for t in tasks:
                t(self)
            return
        ctx = mp.get_context("fork")
        nxt = ctx.Value("i", 0)
        qs = []
        ps = []
        for w in range(workers):
            r, wr = ctx.Pipe(False)
            p = ctx.Process(target=self._worker, args=(tasks, nxt, wr, inner))
            p.start()
            wr.close()
            qs.append(r)
            ps.append(p)
        errs = []
        from multiprocessing.connection import wait
        left = dict(zip(qs, ps))
        ready = []
        while left:
            if not ready:
                ready = list(wait(list(left)))
            r = ready.pop()
            p = left.pop(r)
            try:
                d = r.recv()
            except EOFError:
                errs.append("a worker process died")
                continue
            p.join()
            if d["viol"] and not self.kf:
                # a replayed violation decides the check; the rest of the exploration is abandoned
                for q in left.values():
                    stop_tree(q.pid)
                left = {}
            for k, v in d["stats"].items():
                self.stats[k] = self.stats.get(k, 0) + v
            self.scen += d["scen"]
            self.fns |= d["fns"]
            self.notes |= d["notes"]
            for x in d["samples"]:
                if len(self.samples) < 4:
                    self.samples.append(x)
            for x in d["known"]:
                if x not in self.known:
                    self.known.append(x)
            self.undecided += d["undecided"]
            for (n, l), data in d["viol"]:
                self.violation(n, l, data)
            for k, v in d["smt"].items():
                if isinstance(v, dict):
                    for kk, vv in v.items():
                        smt.STATS[k][kk] = smt.STATS[k].get(kk, 0) + vv
                else:
                    smt.STATS[k] = smt.STATS.get(k, 0) + v
            errs += d["errors"]
        if errs:
            if self.violations:
                log("note: " + "; ".join(errs[:3])[:600])
            else:
                raise Internal("; ".join(errs[:3]))

    def _worker(self, tasks, nxt, wr, inner):
        own_group()
        smt.SERIAL = inner <= 1
        smt.WORKERS = inner
        for k in smt.STATS:
            smt.STATS[k] = {} if isinstance(smt.STATS[k], dict) else 0
        for k in self.stats:
            self.stats[k] = 0
        self.scen = 0
        self.fns, self.notes, self.samples, self.known, self.undecided, self.violations = set(), set(), [], [], [], []
        self.raw_viol = []
        self.native = Native()
        errors = []
        while True:
            with nxt.get_lock():
                i = nxt.value
                nxt.value += 1
            if i >= len(tasks):
                break
            try:
                tasks[i](self)
            except (Unsupported, BoundExceeded, Internal) as e:
                errors.append("%s: %s" % (type(e).__name__, e))
            except Exception as e:
                import traceback
                errors.append("task %d: %r %s" % (i, e, traceback.format_exc()[-800:]))
            if self.raw_viol and not self.kf:
                break
        wr.send({"stats": self.stats, "scen": self.scen, "fns": self.fns, "notes": self.notes, "samples": self.samples,
                 "known": self.known, "undecided": self.undecided, "viol": self.raw_viol, "smt": smt.STATS, "errors": errors})
        wr.close()
        if self.native.p:
            self.native.p.kill()
        os._exit(0)

    # -------------------------------------------------------------- finish
    def finish(self):
        S = smt.STATS
        cov = {
            "states": self.stats["paths"],
            "transitions": self.stats["steps"],
            "traces_validated_against_impl": self.stats["validated"],
            "samples": self.samples or [{"note": "no sample"}],
            "scenarios": self.scen,
            "branches_forked": self.stats["branches"],
            "infeasible_paths_pruned": self.stats["infeasible"],
            "panic_branches_ignored": self.stats["ignored_panics"],
            "assertions": self.stats["goals"],
            "assertions_discharged": self.stats["discharged"],
            "solver_queries": S["queries"], "solver_unsat": S.get("unsat", 0), "solver_sat": S.get("sat", 0),
            "solver_unknown": S.get("unknown", 0), "solver_by": S["by"],
            "feasibility_queries": S["feas"],
            "solver_time_s": round(S["time"] + S["feas_time"], 3),
            "functions_encoded": sorted(f for f in self.fns if "oraiswap" in f or "decimal" in f or "traceable" in f)[:400],
            "functions_encoded_total": len(self.fns),
            "bounds": self.bounds,
            "library_models": sorted(self.notes)[:80],
        }
        evd = {"property": self.pid, "tier": self.tier if self.tier in ("quick", "thorough") else "quick", "seed": self.seed,
               "level": "model_checking", "coverage": cov, "assumptions": COMMON_ASSUME + self.assume,
               "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(evd, open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w"), indent=1)
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
        for key, f in self.violations:
            print("VIOLATION property=%s replay=%s" % (self.pid, f))
        if self.violations:
            sys.stdout.flush()
            return 1
        if self.undecided:
            log("UNDECIDED:")
            for u in self.undecided[:20]:
                log("  ", u)
            return 2
        log("%s: held; %d paths, %d assertions, %d queries, %.1fs" % (
            self.pid, self.stats["paths"], self.stats["goals"], S["queries"], time.time() - self.t0))
        return 0


COMMON_ASSUME = [
    "JSON (de)serialisation of stored and sent values round-trips faithfully (serde is not encoded; stored values are typed terms)",
    "uint-crate big integer arithmetic (U256/U320) is exact; text formatting, destructors and gas are not modelled",
    "a panic or Err reverts the transaction, so paths ending in one leave no observable effect",
    "rustc nightly MIR (mir-opt-level=0, overflow checks on as in the release profile) represents the crate built by the pinned toolchain",
]


def stop_tree(pid):
    """end a worker of this check and the solvers it started (its own process group)"""
    import signal
    try:
        os.killpg(pid, signal.SIGKILL)
    except OSError:
        pass


def own_group():
    """process group of its own, ended with the check"""
    import ctypes, signal
    os.setpgrp()
    try:
        ctypes.CDLL(None).prctl(1, signal.SIGKILL)
    except Exception:
        pass


class PathResult:
    __slots__ = ("path", "out", "st")

    def __init__(self, st, out):
        self.path = st.path
        self.out = out
        self.st = st


def flat_terms(x):
    if isinstance(x, (T, B)):
        yield x
    elif isinstance(x, (list, tuple)):
        for y in x:
            yield from flat_terms(y)


def has_opaque(x):
    if isinstance(x, Opaque):
        return True
    if isinstance(x, (list, tuple)):
        return any(has_opaque(y) for y in x)
    return False


def same(a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return type(a) == type(b) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, bool) or isinstance(b, bool):
        return bool(a) == bool(b)
    return a == b


def load_known(pid):
    f = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(f):
        return []
    return [k for k in json.load(open(f)).get("known", []) if k["property"] == pid]


def match_known(k, data):
    """a known finding names scenario and broken assertion (matched by the caller); optional extra conditions"""
    m = k.get("match")
    if not m:
        return True
    return all(str(data.get(x)) == str(y) for x, y in m.items())


def main(pid, fn):
    c = Check(pid)
    try:
        fn(c)
        rc = c.finish()
    except (Unsupported, BoundExceeded, Internal) as e:
        if c.violations:
            rc = c.finish()
        else:
            log("ERROR %s: %s: %s" % (pid, type(e).__name__, e))
            rc = 2
            try:
                c.undecided.append("error: %s" % e)
                c.finish()
            except Exception:
                pass
    sys.stdout.flush()
    sys.exit(rc)
