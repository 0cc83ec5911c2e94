"""Solver layer: lowering of terms to z3, feasibility, proof portfolio, model extraction."""
import os
import random
import subprocess
import tempfile
import time
import z3
from terms import *
import terms

STATS = {"queries": 0, "unsat": 0, "sat": 0, "unknown": 0, "time": 0.0, "feas": 0, "feas_time": 0.0, "by": {}}


class Lower:
    """lower terms to z3 Ints.  nl=False: products of atoms become fresh variables (a sound weakening)."""

    def __init__(self, nl=False, real=False, lemmas=True):
        self.nl = nl
        self.real = real
        self.atoms = {}
        self.monos = {}
        self.side = []          # side constraints (definitions, ranges)
        self.tc = {}
        self.bc = {}
        self.ufs = {}
        self.lemmas = lemmas
        self.pending = []

    def fresh(self, n):
        return z3.Real(n) if self.real else z3.Int(n)

    def K(self, c):
        return z3.RealVal(c) if self.real else z3.IntVal(c)

    def atom(self, i):
        r = self.atoms.get(i)
        if r is not None:
            return r
        a = Atom.lst[i]
        if a.kind == "var":
            r = self.fresh("v_" + a.name)
            self.atoms[i] = r
        else:
            r = self.fresh("a%d" % i)
            self.atoms[i] = r
        if a.lo is not None:
            self.side.append(r >= a.lo)
        if a.hi is not None:
            self.side.append(r <= a.hi)
        if a.kind == "div":
            n, d = a.args
            dq = mul(atomT(a), d)
            self.side.append(self.t(sub(n, dq)) >= 0)
            if self.real:
                self.side.append(self.t(sub(n, dq)) <= self.t(sub(d, 1)))
            else:
                self.side.append(self.t(sub(sub(d, 1), sub(n, dq))) >= 0)
            if not isinstance(d, int):
                self.side.append(self.t(d) >= 1)
        elif a.kind == "ite":
            c, x, y = a.args
            self.side.append(z3.If(self.b(c), r == self.t(x), r == self.t(y)))
        elif a.kind == "uf":
            args = [self.t(x) for x in a.args]
            for (n2, args2, r2, a2) in self.ufs.get(a.name, []):
                cong = z3.And(*[x == y for x, y in zip(args, args2)]) if args else z3.BoolVal(True)
                self.side.append(z3.Implies(cong, r == r2))
                if a.name in MONO_UFS and len(args) == 1:
                    self.side.append(z3.Implies(args[0] < args2[0], r < r2))
                    self.side.append(z3.Implies(args[0] > args2[0], r > r2))
            self.ufs.setdefault(a.name, []).append((a.name, args, r, a))
        elif a.kind in ("band", "bor", "bxor"):
            pass
        return r

    def mono(self, m):
        if len(m) == 1:
            return self.atom(m[0])
        r = self.monos.get(m)
        if r is not None:
            return r
        if self.nl:
            r = self.atom(m[0])
            for i in m[1:]:
                r = r * self.atom(i)
            self.monos[m] = r
            return r
        r = self.fresh("m_" + "_".join(map(str, m)))
        self.monos[m] = r
        lo, hi = interval(terms._mkT({m: 1}))
        if lo is not None:
            self.side.append(r >= lo)
        if hi is not None:
            self.side.append(r <= hi)
        for i in m:
            self.atom(i)
        return r

    def t(self, x):
        if isinstance(x, bool):
            return self.K(int(x))
        if isinstance(x, int):
            return self.K(x)
        r = self.tc.get(x)
        if r is not None:
            return r
        s = []
        for m, c in x.m:
            if m == ():
                s.append(self.K(c))
            else:
                e = self.mono(m)
                s.append(e if c == 1 else e * c)
        r = z3.Sum(s) if len(s) > 1 else s[0]
        self.tc[x] = r
        return r

    def b(self, x):
        if isinstance(x, bool):
            return z3.BoolVal(x)
        r = self.bc.get(x)
        if r is not None:
            return r
        if x.k == "ge":
            r = self.t(x.a[0]) >= 0
        elif x.k == "eq":
            r = self.t(x.a[0]) == 0
        elif x.k == "ne":
            r = self.t(x.a[0]) != 0
        elif x.k == "and":
            r = z3.And(*[self.b(y) for y in x.a])
        elif x.k == "or":
            r = z3.Or(*[self.b(y) for y in x.a])
        elif x.k == "not":
            r = z3.Not(self.b(x.a[0]))
        else:
            raise ValueError(x.k)
        self.bc[x] = r
        return r


MONO_UFS = set()


def bound_products(low, bnd):
    """McCormick-style bounds for every product monomial from path interval bounds (sound)."""
    out = []
    done = set()
    while True:
        todo = [m for m in low.monos if m not in done]
        if not todo:
            break
        for m in todo:
            done.add(m)
            r = low.monos[m]
            lo, hi = interval(terms._mkT({m: 1}), bnd)
            if lo is not None:
                out.append(r >= lo)
            if hi is not None:
                out.append(r <= hi)
            # m = a * rest : with bounds on a : lo_a*rest <= m <= hi_a*rest (rest >= 0)
            for j, a in enumerate(m):
                if j and m[j - 1] == a:
                    continue
                rest = m[:j] + m[j + 1:]
                ri = interval(terms._mkT({rest: 1}), bnd)
                if ri[0] is None or ri[0] < 0:
                    continue
                ai = terms.atom_iv(a, bnd)
                R = low.mono(rest)
                if ai[0] is not None:
                    out.append(r >= R * ai[0])
                if ai[1] is not None:
                    out.append(r <= R * ai[1])
                A = low.atom(a)
                if ai[0] is not None and ai[0] >= 0:
                    # (a - la)(rest - lr) >= 0 and upper-upper
                    out.append(r >= A * ri[0] + R * ai[0] - ai[0] * ri[0])
                    if ai[1] is not None and ri[1] is not None:
                        out.append(r >= A * ri[1] + R * ai[1] - ai[1] * ri[1])
                    if ri[1] is not None:
                        out.append(r <= A * ri[1] + R * ai[0] - ai[0] * ri[1])
                    if ai[1] is not None:
                        out.append(r <= A * ri[0] + R * ai[1] - ai[1] * ri[0])
    return out


def facts_for(conds, goals):
    """defining inequalities (polynomials >= 0) of the div atoms occurring in the formulas"""
    acc = set()
    for c in list(conds) + list(goals):
        atoms_of(c, acc)
    out = []
    for i in sorted(acc):
        a = Atom.lst[i]
        if a.kind == "div":
            n, d = a.args
            q = atomT(a)
            r = sub(n, mul(q, d))
            out.append(r)
            out.append(sub(sub(d, 1), r))
    return out, acc


def z3_quick(conds, goal=None, bnd=None, timeout=2000, products=True, extra=(), real=False):
    """linear abstraction; returns 'unsat' | ('sat', env) | 'unknown'"""
    low = Lower(nl=False, real=real)
    s = z3.SolverFor("QF_LRA" if real else "QF_LIA")
    s.set("timeout", timeout)
    fs = [low.b(c) for c in conds]
    if goal is not None:
        fs.append(z3.Not(low.b(goal)))
    for e in extra:
        fs.append(low.t(e) >= 0)
    if products:
        fs += bound_products(low, bnd if bnd is not None else {})
    # side grows while lowering
    i = 0
    for f in fs:
        s.add(f)
    s.add(*low.side)
    r = s.check()
    if r == z3.unsat:
        return "unsat", None
    if r == z3.sat:
        env = {}
        if real:
            return "sat", env
        m = s.model()
        for i, e in low.atoms.items():
            a = Atom.lst[i]
            if a.kind == "var":
                v = m.eval(e, model_completion=True)
                env[a.name] = v.as_long()
        return "sat", env
    return "unknown", None


_feas_cache = {}


def feasible(path, timeout=300):
    """False only if the path condition is proved unsatisfiable"""
    key = frozenset(path.cset)
    r = _feas_cache.get(key)
    if r is not None:
        return r
    t0 = time.time()
    try:
        r, _ = z3_quick(path.conds, None, path.bnd, timeout)
    except z3.Z3Exception:
        r = "unknown"
    STATS["feas"] += 1
    STATS["feas_time"] += time.time() - t0
    r = r != "unsat"
    _feas_cache[key] = r
    return r


class RealCache:
    """linear real abstraction of path conditions with lowering shared between queries"""

    def __init__(self):
        self.low = Lower(nl=False, real=True)
        self.dep = {}       # atom -> frozenset of atoms reachable from it (itself included)
        self.side = {}      # atom -> z3 formula
        self.amono = {}     # atom -> monomials in its side constraints
        self.cond = {}      # condition -> (z3, atoms, monomials)
        self.mc = {}        # (mono, bounds) -> z3

    def monos(self, t, acc):
        st = [t]
        while st:
            y = st.pop()
            if isinstance(y, T):
                for m, _ in y.m:
                    if len(m) > 1:
                        acc.add(m)
            elif isinstance(y, B):
                st.extend(y.a)

    def atom(self, i):
        if i in self.side:
            return
        self.side[i] = None
        low = self.low
        a = Atom.lst[i]
        if i not in low.atoms:
            low.atoms[i] = low.fresh("v_" + a.name if a.kind == "var" else "a%d" % i)
        r = low.atoms[i]
        out = []
        ms = set()
        for x in a.args:
            if isinstance(x, (T, B)):
                self.need(x)
        if a.lo is not None:
            out.append(r >= a.lo)
        if a.hi is not None:
            out.append(r <= a.hi)
        if a.kind == "div":
            n, d = a.args
            rem = sub(n, mul(atomT(a), d))
            self.need(rem)
            out.append(low.t(rem) >= 0)
            out.append(low.t(rem) <= low.t(sub(d, 1)))
            self.monos(rem, ms)
            if not isinstance(d, int):
                out.append(low.t(d) >= 1)
                self.monos(d, ms)
        elif a.kind == "ite":
            c, x, y = a.args
            out.append(z3.If(low.b(c), r == low.t(x), r == low.t(y)))
            for z in (c, x, y):
                self.monos(z, ms)
        self.side[i] = z3.And(*out) if out else None
        self.amono[i] = ms

    def need(self, x):
        for i in sorted(atoms_of(x)):
            self.atom(i)

    def of(self, c):
        r = self.cond.get(c)
        if r is None:
            ats = atoms_of(c)
            for i in sorted(ats):
                self.atom(i)
            ms = set()
            self.monos(c, ms)
            r = (self.low.b(c), frozenset(ats), frozenset(ms))
            self.cond[c] = r
        return r

    def mccormick(self, m, bnd, todo):
        ais = tuple(terms.atom_iv(a, bnd) for a in m)
        mi = interval(terms._mkT({m: 1}), bnd)
        ris = []
        for j in range(len(m)):
            rest = m[:j] + m[j + 1:]
            ris.append(interval(terms._mkT({rest: 1}), bnd))
            if len(rest) > 1:
                todo.append(rest)
        key = (m, ais, mi, tuple(ris))
        e = self.mc.get(key)
        if e is not None:
            return e
        low = self.low
        r = low.mono(m)
        out = []
        if mi[0] is not None:
            out.append(r >= mi[0])
        if mi[1] is not None:
            out.append(r <= mi[1])
        for j, a in enumerate(m):
            if j and m[j - 1] == a:
                continue
            ri, ai = ris[j], ais[j]
            if ri[0] is None or ri[0] < 0:
                continue
            R = low.mono(m[:j] + m[j + 1:])
            if ai[0] is not None:
                out.append(r >= R * ai[0])
            if ai[1] is not None:
                out.append(r <= R * ai[1])
            A = low.atom(a)
            if ai[0] is not None and ai[0] >= 0:
                out.append(r >= A * ri[0] + R * ai[0] - ai[0] * ri[0])
                if ai[1] is not None and ri[1] is not None:
                    out.append(r >= A * ri[1] + R * ai[1] - ai[1] * ri[1])
                if ri[1] is not None:
                    out.append(r <= A * ri[1] + R * ai[0] - ai[0] * ri[1])
                if ai[1] is not None:
                    out.append(r <= A * ri[0] + R * ai[1] - ai[1] * ri[0])
        e = z3.And(*out)
        self.mc[key] = e
        return e

    def sat(self, conds, bnd, timeout):
        s = z3.SolverFor("QF_LRA")
        s.set("timeout", timeout)
        fs = []
        ats = set()
        ms = set()
        for c in conds:
            if isinstance(c, bool):
                if not c:
                    return False
                continue
            e, a, m = self.of(c)
            fs.append(e)
            ats |= a
            ms |= m
        for i in ats:
            if self.side[i] is not None:
                fs.append(self.side[i])
            ms |= self.amono[i]
        seen = set()
        todo = list(ms)
        while todo:
            m = todo.pop()
            if m in seen:
                continue
            seen.add(m)
            fs.append(self.mccormick(m, bnd, todo))
        s.add(fs)
        return s.check() != z3.unsat


_rc = None


def feasible_real(path, timeout=300):
    """as feasible, over the reals (weaker pruning, much cheaper on deep nonlinear paths)"""
    global _rc
    key = frozenset(path.cset)
    r = _feas_cache.get(key)
    if r is not None:
        return r
    t0 = time.time()
    if _rc is None:
        _rc = RealCache()
    try:
        r = _rc.sat(path.conds, path.bnd, timeout)
    except z3.Z3Exception:
        r = True
    STATS["feas"] += 1
    STATS["feas_time"] += time.time() - t0
    _feas_cache[key] = r
    return r


def complete_env(terms_, env):
    """give unconstrained variables a value"""
    acc = set()
    for t in terms_:
        atoms_of(t, acc)
    env = dict(env)
    for i in acc:
        a = Atom.lst[i]
        if a.kind == "var" and a.name not in env:
            env[a.name] = a.lo if a.lo is not None else 0
    return env


def check_env(conds, goal, env, ufs=None):
    """does env concretely satisfy conds and violate goal?"""
    env = complete_env(list(conds) + ([goal] if goal is not None else []), env)
    cache = {}
    try:
        for c in conds:
            if not evaluate(c, env, ufs, cache):
                return None
        if goal is not None and evaluate(goal, env, ufs, cache):
            return None
    except EvalError:
        return None
    for n, v in env.items():
        a = Atom.table.get(("var", (), n))
        if a is not None and ((a.lo is not None and v < a.lo) or (a.hi is not None and v > a.hi)):
            return None
    return env


def smt2_text(conds, goal, nl=True, logic=None, extra=()):
    low = Lower(nl=nl)
    s = z3.Solver()
    fs = [low.b(c) for c in conds]
    if goal is not None:
        fs.append(z3.Not(low.b(goal)))
    for e in extra:
        fs.append(low.t(e) >= 0)
    s.add(*fs)
    s.add(*low.side)
    txt = s.to_smt2()
    names = {}
    for i, e in low.atoms.items():
        if Atom.lst[i].kind == "var":
            names[e.decl().name()] = Atom.lst[i].name
    return txt, names


def run_external(txt, names, timeout, solvers=("z3", "cvc5")):
    """parallel portfolio of external solver processes on an SMT-LIB problem"""
    procs = []
    d = tempfile.mkdtemp(prefix="vsmt")
    try:
        getv = "\n(get-value (%s))\n" % " ".join("|%s|" % n if not n.replace("_", "").isalnum() else n for n in names) if names else ""
        f = os.path.join(d, "q.smt2")
        open(f, "w").write("(set-option :produce-models true)\n" + txt + getv)
        f2 = os.path.join(d, "q_cvc5.smt2")
        open(f2, "w").write("(set-logic ALL)\n(set-option :produce-models true)\n" + txt + getv)
        cmds = []
        for s in solvers:
            if s == "z3":
                cmds.append((s, ["z3-new", "-T:%d" % int(timeout + 1), f]))
            elif s == "z3a2":
                cmds.append((s, ["z3-new", "-T:%d" % int(timeout + 1), "smt.arith.solver=2", f]))
            elif s == "z3old":
                cmds.append((s, ["z3", "-T:%d" % int(timeout + 1), f]))
            elif s == "cvc5":
                cmds.append((s, ["cvc5", "--tlimit=%d" % int(timeout * 1000), f2]))
            elif s == "cvc5cov":
                cmds.append((s, ["cvc5", "--tlimit=%d" % int(timeout * 1000), "--nl-cov", f2]))
        for n, c in cmds:
            procs.append((n, subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)))
        t0 = time.time()
        live = list(procs)
        while live and time.time() - t0 < timeout + 2:
            for n, p in list(live):
                if p.poll() is not None:
                    live.remove((n, p))
                    out = p.stdout.read()
                    first = out.strip().split("\n", 1)[0].strip() if out.strip() else ""
                    if first == "unsat":
                        return "unsat", None, n
                    if first == "sat":
                        return "sat", parse_values(out, names), n
            time.sleep(0.01)
        return "unknown", None, None
    finally:
        for n, p in procs:
            if p.poll() is None:
                p.kill()
                p.wait()
        subprocess.call(["rm", "-rf", d])


def parse_values(out, names):
    import re
    env = {}
    for m in re.finditer(r"\(\s*\|?([A-Za-z_0-9.$@!\[\]]+)\|?\s+(\(-\s*\d+\)|\d+)\s*\)", out):
        n, v = m.group(1), m.group(2)
        if n in names:
            v = v.replace(" ", "")
            env[names[n]] = -int(v.strip("()-")) if v.startswith("(") else int(v)
    return env


class Result:
    __slots__ = ("verdict", "env", "by", "time")

    def __init__(self, verdict, env=None, by=None, t=0):
        self.verdict = verdict
        self.env = env
        self.by = by
        self.time = t


def product_lemmas(conds, goal, bnd, limit=60, degree=3):
    """consequences p*q >= 0 of known p >= 0, q >= 0 (nlinarith-style)"""
    facts, acc = facts_for(conds, [goal])
    base = list(facts)
    neg = Not(goal)
    for c in list(conds) + ([neg] if isinstance(neg, B) else []):
        if isinstance(c, B):
            if c.k == "ge":
                base.append(c.a[0])
            elif c.k == "eq":
                base.append(c.a[0])
                base.append(terms.neg(c.a[0]))
            elif c.k == "and":
                for y in c.a:
                    if y.k == "ge":
                        base.append(y.a[0])
    atoms = []
    for i in sorted(acc):
        lo, hi = terms.atom_iv(i, bnd)
        if lo is not None and lo >= 0 and Atom.lst[i].kind in ("var", "div"):
            atoms.append(atomT(Atom.lst[i]) if lo == 0 else sub(atomT(Atom.lst[i]), lo) if lo < 0 else atomT(Atom.lst[i]))
    out = []
    seen = set()

    def deg(t):
        return max((len(m) for m, _ in poly(t)), default=0)
    for p in base:
        for a in atoms:
            if deg(p) + 1 > degree:
                continue
            r = mul(p, a)
            if not isinstance(r, int) and r not in seen:
                seen.add(r)
                out.append(r)
    for i, p in enumerate(base):
        for q in base[i:]:
            if deg(p) + deg(q) > degree:
                continue
            r = mul(p, q)
            if not isinstance(r, int) and r not in seen:
                seen.add(r)
                out.append(r)
    out.sort(key=lambda t: len(poly(t)))
    return out[:limit]


def prove(conds, goal, bnd=None, budget=60, name="", ufs=None, hints=(), quick=2000, degree=4, nllimit=400, skip_lin=False):
    """decide conds |= goal.  hints: extra polynomials known >= 0 (consequences established elsewhere)"""
    t0 = time.time()
    STATS["queries"] += 1
    if DEADLINE:
        budget = max(1, min(budget, DEADLINE - t0))

    def done(v, env=None, by=None):
        dt = time.time() - t0
        STATS["time"] += dt
        STATS[v if v != "proved" else "unsat"] = STATS.get(v if v != "proved" else "unsat", 0) + 1
        if by:
            STATS["by"][by] = STATS["by"].get(by, 0) + 1
        return Result({"unsat": "proved"}.get(v, v), env, by, dt)
    if goal is True:
        return done("unsat", by="simp")
    bnd = bnd or {}
    hints = [h for h in hints if not isinstance(h, int)]
    # 1. linear abstraction
    if not skip_lin:
        r, env = z3_quick(conds, goal, bnd, quick, extra=hints)
        if r == "unsat":
            return done("unsat", by="lin")
        if r == "sat":
            e = check_env(conds, goal, env, ufs)
            if e is not None:
                return done("sat", e, "lin")
    # 2. with product lemmas
    if goal is not False:
        pl = product_lemmas(conds, goal, bnd, limit=nllimit, degree=degree)
    else:
        pl = product_lemmas(conds, goal, bnd, limit=nllimit, degree=degree)
    if pl:
        r, env = z3_quick(conds, goal, bnd, min(20000, int(budget * 400)), extra=list(hints) + pl)
        if r == "unsat":
            return done("unsat", by="linprod")
        if r == "sat":
            e = check_env(conds, goal, env, ufs)
            if e is not None:
                return done("sat", e, "linprod")
    left = budget - (time.time() - t0)
    if left > 1:
        txt, names = smt2_text(conds, goal, nl=True, extra=hints)
        r, env, by = run_external(txt, names, left * 0.7, ("z3", "cvc5", "z3a2"))
        if r == "unsat":
            return done("unsat", by=by)
        if r == "sat":
            e = check_env(conds, goal, env, ufs)
            if e is not None:
                return done("sat", e, by)
    # 3. counterexample search by fixing some variables
    e = ladder(conds, goal, bnd, max(5, budget * 0.5), ufs)
    if e is not None:
        return done("sat", e, "ladder")
    return done("unknown")


_JOBS = []
SERIAL = False
WORKERS = 4
DEADLINE = None


def _work(i):
    for k in STATS:
        STATS[k] = {} if isinstance(STATS[k], dict) else 0
    c, g, b, budget, ufs, h = _JOBS[i]
    r = prove(c, g, b, budget=budget, ufs=ufs, hints=h, skip_lin=True)
    return (r.verdict, r.env, r.by, r.time), {k: v for k, v in STATS.items()}


def prove_all(jobs, workers=None, stop=False):
    """decide a list of (conds, goal, bnd, budget, ufs, hints); hard ones in parallel worker processes"""
    global _JOBS
    workers = workers or WORKERS
    res = [None] * len(jobs)
    hard = []
    for i, (c, g, b, budget, ufs, h) in enumerate(jobs):
        t0 = time.time()
        r, env = z3_quick(c, g, b or {}, 2000, extra=[x for x in h if not isinstance(x, int)])
        v = None
        if r == "unsat":
            v = Result("proved", None, "lin", time.time() - t0)
        elif r == "sat":
            e = check_env(c, g, env, ufs)
            if e is not None:
                v = Result("sat", e, "lin", time.time() - t0)
        STATS["time"] += time.time() - t0
        if v is None:
            hard.append(i)
        else:
            STATS["queries"] += 1
            k = "unsat" if v.verdict == "proved" else "sat"
            STATS[k] = STATS.get(k, 0) + 1
            STATS["by"]["lin"] = STATS["by"].get("lin", 0) + 1
            res[i] = v
            if stop and v.verdict == "sat":
                return res
    if stop and len(hard) > 1:
        # a short counterexample search over a spread of the hard ones first
        t0 = time.time()
        for i in hard[::max(1, len(hard) // 8)]:
            c, g, b, budget, ufs, h = jobs[i]
            e = ladder(c, g, b or {}, 1.5, ufs)
            if e is not None:
                STATS["time"] += time.time() - t0
                STATS["queries"] += 1
                STATS["sat"] = STATS.get("sat", 0) + 1
                STATS["by"]["ladder"] = STATS["by"].get("ladder", 0) + 1
                res[i] = Result("sat", e, "ladder", time.time() - t0)
                return res
        STATS["time"] += time.time() - t0
    if len(hard) == 1 or SERIAL:
        for i in hard:
            c, g, b, budget, ufs, h = jobs[i]
            res[i] = prove(c, g, b, budget=budget, ufs=ufs, hints=h, skip_lin=True)
            if stop and res[i].verdict == "sat":
                return res
    elif hard:
        import multiprocessing as mp
        _JOBS = jobs
        with mp.get_context("fork").Pool(min(workers, len(hard))) as pool:
            for i, (r, st) in zip(hard, pool.imap(_work, hard)):
                res[i] = Result(*r)
                if stop and res[i].verdict == "sat":
                    break
                for k, v in st.items():
                    if isinstance(v, dict):
                        for kk, vv in v.items():
                            STATS[k][kk] = STATS[k].get(kk, 0) + vv
                    else:
                        STATS[k] = STATS.get(k, 0) + v
        _JOBS = []
    return res


def ladder(conds, goal, bnd, budget, ufs=None, seed=1):
    """search for a concrete counterexample: fix a random subset of variables to chosen values so that the
    remaining problem is (nearly) linear and ask the solver for the rest"""
    rnd = random.Random(seed)
    acc = set()
    for c in list(conds) + [goal]:
        atoms_of(c, acc)
    vs = [Atom.lst[i] for i in acc if Atom.lst[i].kind == "var"]
    if not vs:
        return None
    t0 = time.time()
    low = Lower(nl=True)
    fs = [low.b(c) for c in conds] + [z3.Not(low.b(goal))]
    fs += low.side
    zv = {a.name: low.atom(a.id) for a in vs}
    s = z3.Solver()
    s.set("timeout", 1500)
    s.add(*fs)

    def cand(a):
        lo, hi = interval(atomT(a), bnd)
        lo = 0 if lo is None else lo
        hi = (1 << 128) if hi is None else hi
        ch = rnd.random()
        if hi - lo < 4:
            return rnd.randint(lo, hi)
        if ch < 0.25:
            return lo + rnd.randint(0, min(3, hi - lo))
        if ch < 0.35:
            return hi - rnd.randint(0, min(3, hi - lo))
        if ch < 0.8:
            k = rnd.randint(0, max(1, (hi - lo).bit_length() - 1))
            return min(hi, lo + rnd.getrandbits(k + 1))
        return min(hi, max(lo, 10 ** rnd.randint(0, 38)))
    tries = 0
    while time.time() - t0 < budget:
        tries += 1
        k = rnd.randint(max(1, len(vs) - 3), len(vs)) if len(vs) > 1 else 1
        fix = rnd.sample(vs, k)
        s.push()
        env0 = {}
        for a in fix:
            v = cand(a)
            env0[a.name] = v
            s.add(zv[a.name] == v)
        if k == len(vs):
            e = check_env(conds, goal, env0, ufs)
            s.pop()
            if e is not None:
                return e
            continue
        r = s.check()
        if r == z3.sat:
            m = s.model()
            env = {a.name: m.eval(zv[a.name], model_completion=True).as_long() for a in vs}
            e = check_env(conds, goal, env, ufs)
            if e is not None:
                s.pop()
                return e
        s.pop()
    return None
