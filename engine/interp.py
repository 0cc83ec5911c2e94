"""Symbolic interpreter for the dumped MIR."""
import json
import re
import sys
import time
from terms import *
from values import *

sys.setrecursionlimit(10000)


class Unsupported(Exception):
    pass


class BoundExceeded(Exception):
    pass


class Program:
    def __init__(self, path):
        d = json.load(open(path))
        self.fns = d["fns"]
        self.types = d["types"]
        self.allocs = {int(k): v for k, v in d["allocs"].items()}
        self.roots = d["roots"]
        self.iter_next = {int(k): v for k, v in d.get("iter_next", {}).items()}
        self.eq_inst = {int(k): v for k, v in d.get("eq_inst", {}).items()}
        self.vtab = d.get("vtab", {})
        self.norm = [None] * len(self.fns)
        self.by_name = {}
        for i, t in enumerate(self.types):
            self.by_name.setdefault(t["n"], i)
            if t.get("adt") in ("std::cmp::Ordering", "core::cmp::Ordering"):
                t["variants"][0]["discr"] = -1

    def ty(self, i):
        return self.types[i]

    def find_ty(self, name):
        r = self.by_name.get(name)
        if r is None:
            c = [i for i, t in enumerate(self.types) if t.get("adt", "").endswith("::" + name) or t.get("adt") == name]
            if not c:
                raise Unsupported("type " + name)
            r = c[0]
        return r

    def variant(self, tyid, name):
        for i, v in enumerate(self.types[tyid]["variants"]):
            if v["name"] == name:
                return i
        raise Unsupported("variant %s of %s" % (name, self.types[tyid]["n"]))

    def field(self, tyid, name, v=0):
        for i, (n, t) in enumerate(self.types[tyid]["variants"][v]["fields"]):
            if n == name:
                return i
        raise Unsupported("field %s of %s" % (name, self.types[tyid]["n"]))


def base_name(n):
    """strip generic arguments from an instance name, keep `<A as B>` heads and `<impl ...>`"""
    out = []
    i = 0
    depth = 0
    # remove '::<...>' groups and 'Ident<...>' groups
    res = ""
    while i < len(n):
        c = n[i]
        if c == "<":
            # is this a head '<A as B>' or '<impl'?
            head = (res == "" or res.endswith("<") or res.endswith("(") or res.endswith("&") or n.startswith("<impl ", i)
                    or res.endswith(" ") or res.endswith("@") or res.endswith("mut ") or res.endswith("["))
            if head:
                res += "<"
                i += 1
                continue
            j = i
            d = 0
            while j < len(n):
                if n[j] == "<":
                    d += 1
                elif n[j] == ">" and n[j - 1] != "-":
                    d -= 1
                    if d == 0:
                        break
                j += 1
            if res.endswith("::"):
                res = res[:-2]
            i = j + 1
            continue
        res += c
        i += 1
    return res


class Path:
    """path condition with interval refinements"""
    __slots__ = ("conds", "bnd", "cset")

    def __init__(self, conds=(), bnd=None, cset=frozenset()):
        self.conds = list(conds)
        self.bnd = {} if bnd is None else dict(bnd)
        self.cset = set(cset)

    def copy(self):
        return Path(self.conds, self.bnd, self.cset)

    def assume(self, c):
        """returns False if trivially contradictory"""
        if c is True:
            return True
        if c is False:
            return False
        if c.k == "and":
            for x in c.a:
                if not self.assume(x):
                    return False
            return True
        if c in self.cset:
            return True
        if c.k in ("ge", "eq", "ne") and Not(c) in self.cset:
            return False
        self.cset.add(c)
        self.conds.append(c)
        if c.k == "ge":
            return self._refine(c.a[0], 0, None)
        if c.k == "eq":
            return self._refine(c.a[0], 0, 0)
        if c.k == "ne":
            t = c.a[0]
            lo, hi = interval(t, self.bnd)
            if lo == 0 and hi == 0:
                return False
            if lo == 0:
                return self._refine(t, 1, None)
            if hi == 0:
                return self._refine(t, None, -1)
        return True

    def _refine(self, t, lo, hi):
        k, s, c = split_const(t)
        l, h = (lo - c if lo is not None else None), (hi - c if hi is not None else None)
        if s < 0:
            l, h = (None if h is None else -h, None if l is None else -l)
            s = -s
        l = None if l is None else -((-l) // s)
        h = None if h is None else h // s
        cur = self.bnd.get(k)
        base = interval(k, self.bnd)
        new = imeet(base, (l, h))
        if new[0] is not None and new[1] is not None and new[0] > new[1]:
            return False
        self.bnd[k] = new
        # propagate bounds to single atoms of linear polys (one round)
        if len(k.m) > 1 and len(k.m) <= 6:
            for mono, co in k.m:
                if len(mono) == 0:
                    continue
                m1 = T.table.get(((mono, 1),)) or _mk1(mono)
                rest = sub(k, mul(m1, co))
                ri = interval(rest, self.bnd)
                # co*m = k - rest
                num = iadd(new, iscale(ri, -1))
                if co > 0:
                    ml = None if num[0] is None else -((-num[0]) // co)
                    mh = None if num[1] is None else num[1] // co
                else:
                    ml = None if num[1] is None else -((num[1]) // (-co))
                    mh = None if num[0] is None else (-num[0]) // (-co)
                cur = interval(m1, self.bnd)
                nn = imeet(cur, (ml, mh))
                if nn != cur:
                    if nn[0] is not None and nn[1] is not None and nn[0] > nn[1]:
                        return False
                    self.bnd[m1] = nn
        return True

    def simp(self, c):
        if isinstance(c, bool):
            return c
        if c in self.cset:
            return True
        if c.k == "ge":
            r = ge0(c.a[0], self.bnd)
            if isinstance(r, bool):
                return r
            if Not(c) in self.cset:
                return False
            return c
        if c.k in ("eq", "ne"):
            r = eq0(c.a[0], self.bnd)
            if isinstance(r, bool):
                return r if c.k == "eq" else not r
            if Not(c) in self.cset:
                return False
            return c
        if c.k == "and":
            return And(*[self.simp(x) for x in c.a])
        if c.k == "or":
            return Or(*[self.simp(x) for x in c.a])
        if c.k == "not":
            return Not(self.simp(c.a[0]))
        return c

    def iv(self, t):
        return interval(t, self.bnd)


def _mk1(mono):
    import terms
    return terms._mkT({mono: 1})


class Frame:
    __slots__ = ("fn", "bb", "si", "base", "dest", "target", "py", "pst")

    def __init__(self, fn, base, dest, target):
        self.fn = fn
        self.bb = 0
        self.si = 0
        self.base = base
        self.dest = dest      # (alloc,path) in caller
        self.target = target  # bb in caller
        self.py = None        # python step function for pseudo frames
        self.pst = None

    def copy(self):
        f = Frame(self.fn, self.base, self.dest, self.target)
        f.bb = self.bb
        f.si = self.si
        f.py = self.py
        f.pst = self.pst
        return f


class State:
    __slots__ = ("mem", "frames", "path", "store", "steps", "outcome", "ret", "events", "nalloc", "user", "ctr")

    def __init__(self):
        self.mem = {}
        self.frames = []
        self.path = Path()
        self.store = {}
        self.steps = 0
        self.outcome = None
        self.ret = None
        self.events = ()
        self.nalloc = 0
        self.user = {}
        self.ctr = {}

    def fork(self):
        s = State()
        s.mem = dict(self.mem)
        s.frames = [f.copy() for f in self.frames]
        s.path = self.path.copy()
        s.store = dict(self.store)
        s.steps = self.steps
        s.events = self.events
        s.nalloc = self.nalloc
        s.user = dict(self.user)
        s.ctr = dict(self.ctr)
        return s

    def alloc(self, v):
        self.nalloc += 1
        a = ("h", self.nalloc)
        self.mem[a] = v
        return a


class Alts:
    """model result: alternatives [(cond, value)], value may be Panic; fn(st) may be given to post-process"""

    def __init__(self, alts):
        self.alts = alts


class Panic:
    def __init__(self, msg):
        self.msg = msg


class CallReq:
    """pseudo frame asks to call instance with args, continuing with state pst"""

    def __init__(self, inst, args, pst):
        self.inst = inst
        self.args = args
        self.pst = pst


class PyCall:
    """model result: push a pseudo frame"""

    def __init__(self, step, pst):
        self.step = step
        self.pst = pst


class Replace:
    """model result: call another instance instead"""

    def __init__(self, inst, args):
        self.inst = inst
        self.args = args


def rng(bits, signed):
    if signed:
        return (-(1 << (bits - 1)), (1 << (bits - 1)) - 1)
    return (0, (1 << bits) - 1)


# pure functions of integers whose value for concrete arguments is computed once per run
MEMO = {"oraiswap_v3::sqrt_price::calculate_sqrt_price"}


class Interp:
    def __init__(self, prog, feas=None, ignore_panics=True, max_steps=400000, max_paths=20000):
        self.p = prog
        self.feas = feas            # callable(path) -> bool (False = infeasible)
        self.ignore_panics = ignore_panics
        self.max_steps = max_steps
        self.max_paths = max_paths
        self.models = {}
        self.model_cache = {}
        self.stats = {"branches": 0, "paths": 0, "steps": 0, "assumed_panics": 0, "feas": 0, "pruned": 0}
        self.fns_used = set()
        self.lazy = {}
        self.summaries = {}         # base name -> handler (contract summaries)
        self.fresh_ctr = 0
        self.on_addr_validate = None
        self.const_cache = {}
        self.notes = set()
        self.lazy_init = None       # callable(ex, st, key) -> value | None | [(cond, value|None)]
        self.closure_cache = {}
        self.hooked = None
        self.memo = {}
        self.memo_insts = set()
        for i, f in enumerate(prog.fns):
            if f and base_name(f["n"]) in MEMO:
                self.memo_insts.add(i)
        self.contracts = {}         # base name -> handler(ex, st, inst, args, result) -> facts about the result, decided by another scenario

    # ------------------------------------------------------------ host storage
    def store_alts(self, st, key):
        """[(cond, matching stored key or None)] for a byte key"""
        from models import bytes_eq
        if key in st.store:
            return [(True, key)]
        al = []
        none = True
        for k in st.store:
            if len(k) != len(key):
                continue
            c = st.path.simp(bytes_eq(st, k, key))
            if c is False:
                continue
            if c is True:
                return [(True, k)]
            al.append((c, k))
            none = And(none, Not(c))
        if none is not False:
            al.append((none, None))
        return al

    def storage_key(self, st, p):
        from models import elems
        e = elems(self, st, p)
        if isinstance(e, Opaque):
            raise Unsupported("opaque storage key")
        return tuple(e)

    def storage_call(self, st, m, args):
        from models import mk_vals, lexcmp
        if m == "get":
            key = self.storage_key(st, args[1])
            st.events = st.events + (("get", key),)

            def fin(k):
                def f(s):
                    v = s.store[k]
                    return NONE if v is None else some(v)
                return f
            out = []
            for c, k in self.store_alts(st, key):
                if k is not None:
                    out.append((c, fin(k)))
                    continue
                init = self.lazy_init(self, st, key) if self.lazy_init else None
                if not isinstance(init, list):
                    init = [(True, init)]
                for c2, v in init:
                    def g(s, v=v):
                        if callable(v):
                            v = v(s)
                        s.store[key] = v
                        return NONE if v is None else some(v)
                    out.append((And(c, c2), g))
            if len(out) == 1 and out[0][0] is True:
                return out[0][1](st)
            return Alts(out)
        if m in ("set", "remove"):
            key = self.storage_key(st, args[1])
            val = args[2] if m == "set" else None
            if m == "set":
                val = self.deref(st, val) if isinstance(val, (Ptr, Sl)) else val
            st.events = st.events + ((m, key),)

            def put(k):
                def f(s):
                    s.store[k] = val
                    return UNIT
                return f
            out = [(c, put(k if k is not None else key)) for c, k in self.store_alts(st, key)]
            if len(out) == 1:
                return out[0][1](st)
            return Alts(out)
        if m == "range":
            lo = self.storage_key(st, args[1].f[0]) if args[1].v == 1 else None
            hi = self.storage_key(st, args[2].f[0]) if args[2].v == 1 else None
            order = args[3]
            desc = self.enum_name(order, "Descending")
            ents = []
            for k, v in st.store.items():
                if v is None:
                    continue
                inr = True
                if lo is not None:
                    l, e = lexcmp(self, st, k, lo)
                    inr = And(inr, Not(l))
                if hi is not None:
                    l, e = lexcmp(self, st, k, hi)
                    inr = And(inr, l)
                inr = st.path.simp(inr)
                if inr is True:
                    ents.append((k, v))
                elif inr is not False:
                    raise NeedBranch(inr)
            for i in range(1, len(ents)):
                j = i
                while j > 0:
                    l, e = lexcmp(self, st, ents[j][0], ents[j - 1][0])
                    l = st.path.simp(l)
                    if l is True:
                        ents[j], ents[j - 1] = ents[j - 1], ents[j]
                        j -= 1
                    elif l is False:
                        break
                    else:
                        raise NeedBranch(l)
            if desc:
                ents.reverse()
            it = mk_vals([Agg(0, (Seq(k), v)) for k, v in ents])
            return Dyn(self.new_ptr(st, it), None)
        raise Unsupported("storage." + m)

    def enum_name(self, v, name):
        # cosmwasm_std::Order { Ascending = 1, Descending = 2 }
        return v.v == 1

    def snapshot(self, st, v):
        """deep copy with references resolved"""
        if isinstance(v, (Ptr, Sl)):
            return self.snapshot(st, self.deref(st, v))
        if isinstance(v, Agg):
            return Agg(v.v, tuple(self.snapshot(st, x) for x in v.f))
        if isinstance(v, Seq):
            if all(isinstance(x, (int, T)) for x in v.f):
                return v
            return Seq(tuple(self.snapshot(st, x) for x in v.f))
        return v

    def reinterpret(self, st, v, want):
        raise Unsupported("stored %s read as %s" % (self.p.types[v.data[0]]["n"], self.p.types[want]["n"]))

    def closure_body(self, inst):
        """(closure body instance, takes self by reference)"""
        r = self.closure_cache.get(inst, 0)
        if r != 0:
            return r
        fn = self.p.fns[inst]
        r = None
        if fn["kind"] == "item":
            r = (inst, False)
        elif fn["body"] is not None:
            for b in fn["body"]["blocks"]:
                t = b["t"]
                if t[0] == "call":
                    ft = self.p.types[t[2]]
                    if ft["k"] == "fndef" and ft["inst"] is not None:
                        r = (ft["inst"], True)
                        break
        self.closure_cache[inst] = r
        return r

    # ------------------------------------------------------------ memory
    def getv(self, v, i):
        if isinstance(v, (Agg, Seq)):
            if not v.f and isinstance(v, Agg) and v.v == 0:
                return Agg(0, ())       # field of a zero-sized constant
            return v.f[i]
        if isinstance(v, Big):
            if i == 0:
                return v.limbs()
        if isinstance(v, Ptr) or isinstance(v, Sl) or isinstance(v, Dyn):
            return v  # Box/Unique/NonNull wrappers are transparent
        if isinstance(v, Opaque):
            return v
        if v is UNINIT:
            return UNINIT
        if isinstance(v, (int, T)) and i == 0:
            return v  # transparent integer wrapper
        raise Unsupported("project %s of %r" % (i, v))

    def setv(self, v, path, x):
        if not path:
            return x
        i = path[0]
        if v is UNINIT:
            f = [UNINIT] * (i + 1)
            f[i] = self.setv(UNINIT, path[1:], x)
            return Agg(0, tuple(f))
        if isinstance(v, Big):
            l = v.limbs()
            l = self.setv(l, path[1:], x) if len(path) > 1 else x
            return Big.of_limbs(l.f)
        if isinstance(v, (Agg, Seq)):
            f = list(v.f)
            while len(f) <= i:
                f.append(UNINIT)
            f[i] = self.setv(f[i], path[1:], x)
            f = tuple(f)
            return Agg(v.v, f) if isinstance(v, Agg) else Seq(f)
        raise Unsupported("set into %r" % (v,))

    def read(self, st, a, path):
        try:
            v = st.mem[a]
        except KeyError:
            if a[0] == "c":
                v = self.const_mem[a]
            else:
                raise Unsupported("dangling %s" % (a,))
        for i in path:
            v = self.getv(v, i)
        return v

    def write(self, st, a, path, x):
        if not path:
            st.mem[a] = x
        else:
            st.mem[a] = self.setv(st.mem.get(a, UNINIT), path, x)

    def deref(self, st, ptr):
        """value behind a pointer value (thin)"""
        if isinstance(ptr, Ptr):
            return self.read(st, ptr.a, ptr.p)
        if isinstance(ptr, Sl):
            s = self.read(st, ptr.a, ptr.p)
            if isinstance(s, Opaque):
                return s
            return Seq(s.f[ptr.s:ptr.s + ptr.n])
        raise Unsupported("deref %r" % (ptr,))

    def store(self, st, ptr, v):
        if isinstance(ptr, Ptr):
            self.write(st, ptr.a, ptr.p, v)
            return
        raise Unsupported("store via %r" % (ptr,))

    def new_ptr(self, st, v):
        return Ptr(st.alloc(v), ())

    def new_str(self, st, s):
        b = tuple(s.encode() if isinstance(s, str) else s)
        a = st.alloc(Seq(b))
        return Sl(a, (), 0, len(b))

    # ------------------------------------------------------------ places
    def place(self, st, base, pl):
        """resolve a place -> (alloc, path, slice or None); slice=(start,len)"""
        loc, proj = pl
        a = base + (loc,)
        path = ()
        sl = None
        for e in proj:
            k = e[0]
            if k == "D":
                v = self.read(st, a, path) if sl is None else None
                if isinstance(v, Ptr):
                    a, path, sl = v.a, v.p, None
                elif isinstance(v, Sl):
                    a, path, sl = v.a, v.p, (v.s, v.n)
                elif isinstance(v, Dyn):
                    a, path, sl = v.ptr.a, v.ptr.p, None
                    return (a, path, ("dyn", v.ty))
                else:
                    raise Unsupported("deref of %r" % (v,))
            elif k == "F":
                # transparent pointer wrappers
                v = self._peek(st, a, path)
                if isinstance(v, (Ptr, Sl, Dyn)):
                    continue
                path = path + (e[1],)
            elif k == "V" or k == "O":
                pass
            elif k == "I":
                i = self.read(st, base + (e[1],), ())
                if not isinstance(i, int):
                    i = self.concretize(st, i)
                if sl is not None:
                    path = path + (sl[0] + i,)
                    sl = None
                else:
                    path = path + (i,)
            elif k == "C":
                off, ml, fe = e[1], e[2], e[3]
                if sl is not None:
                    i = sl[0] + (sl[1] - off if fe else off)
                    sl = None
                else:
                    n = len(self.read(st, a, path).f)
                    i = n - off if fe else off
                path = path + (i,)
            elif k == "S":
                fr, to, fe = e[1], e[2], e[3]
                if sl is None:
                    n = len(self.read(st, a, path).f)
                    sl = (0, n)
                s, n = sl
                sl = (s + fr, (n - fr - to) if fe else (to - fr))
            else:
                raise Unsupported("proj " + k)
        return (a, path, sl)

    def _peek(self, st, a, path):
        try:
            return self.read(st, a, path)
        except Unsupported:
            return None

    def concretize(self, st, t):
        """force a symbolic int to a concrete value; raises NeedFork handled by step()"""
        lo, hi = st.path.iv(t)
        if lo is not None and lo == hi:
            return lo
        raise NeedFork(t)

    def read_place(self, st, base, pl):
        a, path, sl = self.place(st, base, pl)
        if sl is not None:
            if sl[0] == "dyn":
                raise Unsupported("read dyn")
            s = self.read(st, a, path)
            return Seq(s.f[sl[0]:sl[0] + sl[1]])
        return self.read(st, a, path)

    def operand(self, st, base, o):
        k = o[0]
        if k == "P" or k == "M":
            pl = o[1]
            if not pl[1]:
                try:
                    return st.mem[base + (pl[0],)]
                except KeyError:
                    return UNINIT
            return self.read_place(st, base, pl)
        if k == "K":
            return self.const(st, o[1], o[2])
        if k == "R":
            return o[1] == "OverflowChecks"
        raise Unsupported("operand " + k)

    # ------------------------------------------------------------ constants
    const_mem = {}

    def const(self, st, ty, c):
        if c == "zst":
            return self.zst(ty)
        if isinstance(c, str):
            raise Unsupported("const " + c + " " + self.p.types[ty]["n"])
        key = (ty, c["b"], str(c["p"]))
        r = self.const_cache.get(key)
        if r is None:
            r = self.decode(ty, c, 0)
            self.const_cache[key] = r
        return r

    def zst(self, ty):
        t = self.p.types[ty]
        k = t["k"]
        if k == "fndef":
            return FnV(t["inst"])
        if k == "adt" and t["kind"] == "struct":
            return Agg(0, tuple(self.zst(f[1]) for f in t["variants"][0]["fields"]))
        if k == "adt" and t["kind"] == "enum":
            v = t["lay"]["vars"]["single"] if t["lay"] and "single" in (t["lay"]["vars"] or {}) else 0
            return Agg(v, tuple(self.zst(f[1]) for f in t["variants"][v]["fields"]))
        if k == "tuple":
            return Agg(0, tuple(self.zst(x) for x in t["elems"]))
        if k == "array":
            return Agg(0, tuple(self.zst(t["elem"]) for _ in range(t["len"])))
        return UNIT

    def rd(self, c, off, n):
        h = c["b"][2 * off:2 * (off + n)]
        if "_" in h:
            return None
        return int.from_bytes(bytes.fromhex(h), "little")

    def decode(self, ty, c, off):
        t = self.p.types[ty]
        k = t["k"]
        if k == "int":
            n = t["bits"] // 8
            v = self.rd(c, off, n)
            if v is None:
                return UNINIT
            if t["signed"] and v >= 1 << (t["bits"] - 1):
                v -= 1 << t["bits"]
            return v
        if k == "bool":
            return self.rd(c, off, 1) == 1
        if k == "char":
            return self.rd(c, off, 4)
        if t["lay"] is not None and t["lay"]["size"] == 0:
            return self.zst(ty)
        if k in ("ref", "rawptr"):
            return self.decode_ptr(t["elem"], c, off)
        if k == "fnptr":
            for o, al in c["p"]:
                if o == off:
                    return FnV(self.p.allocs[al]["fn"])
            return UNINIT
        if k == "tuple":
            return Agg(0, tuple(self.decode(e, c, off + o) for e, o in zip(t["elems"], t["lay"]["offs"])))
        if k == "array":
            st = t["lay"]["offs"]["stride"] if isinstance(t["lay"]["offs"], dict) else 0
            return Agg(0, tuple(self.decode(t["elem"], c, off + i * st) for i in range(t["len"])))
        if k == "adt":
            if t["adt"] in ("std::vec::Vec", "std::string::String"):
                return Seq(())   # only empty containers can appear in constants
            if t["kind"] == "struct":
                if is_big(t):
                    n = big_limbs(self.p, t)
                    return Big(n, self.rd(c, off, 8 * n))
                fs = t["variants"][0]["fields"]
                return Agg(0, tuple(self.decode(f[1], c, off + o) for f, o in zip(fs, t["lay"]["offs"])))
            if t["kind"] == "enum":
                vs = t["lay"]["vars"]
                if "single" in vs:
                    v = vs["single"]
                    fs = t["variants"][v]["fields"]
                    return Agg(v, tuple(self.decode(f[1], c, off + o) for f, o in zip(fs, t["lay"]["offs"])))
                toff = off + t["lay"]["offs"][vs["tag_field"]]
                ts = vs["tag_size"]
                tag = self.rd(c, toff, ts)
                isptr = any(o == toff for o, _ in c["p"])
                enc = vs["enc"]
                if "direct" in enc:
                    m = (1 << (8 * ts)) - 1
                    v = [i for i, x in enumerate(t["variants"]) if (x["discr"] & m) == tag][0]
                else:
                    rel = (tag - enc["start"]) % (1 << (8 * ts)) if not isptr and tag is not None else None
                    v = enc["lo"] + rel if rel is not None and rel <= enc["hi"] - enc["lo"] else enc["untagged"]
                fs = t["variants"][v]["fields"]
                return Agg(v, tuple(self.decode(f[1], c, off + o) for f, o in zip(fs, vs["variants"][v])))
            if t["kind"] == "union":
                return UNINIT
        raise Unsupported("decode const of type " + t["n"])

    def decode_ptr(self, elem, c, off):
        al = None
        for o, a in c["p"]:
            if o == off:
                al = a
        et = self.p.types[elem]
        base = self.rd(c, off, 8)
        if al is None:
            if et["k"] in ("slice", "str"):
                n = self.rd(c, off + 8, 8)
                key = ("c", "empty")
                self.const_mem[key] = Seq(())
                if n == 0:
                    return Sl(key, (), 0, 0)
                key = ("c", "zsl", elem, n)
                self.const_mem[key] = Seq(tuple(self.zst(et["elem"]) for _ in range(n)))
                return Sl(key, (), 0, n)
            key = ("c", "zst", elem)
            self.const_mem[key] = self.zst(elem)
            return Ptr(key, ())
        ga = self.p.allocs[al]
        if "fn" in ga:
            return FnV(ga["fn"])
        if "mem" not in ga:
            key = ("c", "opaque", al)
            self.const_mem[key] = Opaque("static", al)
            return Ptr(key, ())
        if et["k"] == "str" or et["k"] == "slice":
            n = self.rd(c, off + 8, 8)
            key = ("c", al, base, elem, n)
            if key not in self.const_mem:
                if et["k"] == "str":
                    self.const_mem[key] = Seq(tuple(bytes.fromhex(ga["mem"]["b"][2 * base:2 * (base + n)])))
                else:
                    ee = et["elem"]
                    sz = self.p.types[ee]["lay"]["size"]
                    self.const_mem[key] = Seq(())
                    self.const_mem[key] = Seq(tuple(self.decode(ee, ga["mem"], base + i * sz) for i in range(n)))
            return Sl(key, (), 0, n)
        if et["k"] == "dyn":
            key = ("c", al, "dyn")
            self.const_mem[key] = Opaque("dynconst", al)
            return Dyn(Ptr(key, ()), None)
        key = ("c", al, base, elem)
        if key not in self.const_mem:
            self.const_mem[key] = UNINIT
            try:
                self.const_mem[key] = self.decode(elem, ga["mem"], base)
            except Unsupported as e:
                self.const_mem[key] = Opaque("undecoded", str(e))
        return Ptr(key, ())

    # ------------------------------------------------------------ arithmetic
    def wrap(self, st, t, bits, signed):
        """value of t reduced to the machine type"""
        lo, hi = rng(bits, signed)
        a, b = st.path.iv(t)
        if a is not None and b is not None and a >= lo and b <= hi:
            return t
        if isinstance(t, int):
            t &= (1 << bits) - 1
            if signed and t > hi:
                t -= 1 << bits
            return t
        # one-sided single wrap: stay exact with ite
        if a is not None and b is not None:
            if signed:
                m = mod(add(t, 1 << (bits - 1)), 1 << bits, st.path.bnd)
                return sub(m, 1 << (bits - 1))
        if not signed:
            return mod(t, 1 << bits, st.path.bnd)
        m = mod(add(t, 1 << (bits - 1)), 1 << bits, st.path.bnd)
        return sub(m, 1 << (bits - 1))

    def binop(self, st, op, a, b, ty, tyb):
        t = self.p.types[ty]
        k = t["k"]
        if isinstance(a, (bool, B)) or isinstance(b, (bool, B)):
            if op in ("BitAnd",):
                return And(a, b)
            if op == "BitOr":
                return Or(a, b)
            if op in ("BitXor", "Ne"):
                return Not(Iff(a, b))
            if op == "Eq":
                return Iff(a, b)
            a, b = b2i(a), b2i(b)
        if isinstance(a, (Ptr, Sl, Dyn)) or isinstance(b, (Ptr, Sl, Dyn)):
            if op in ("Eq", "Ne"):
                same = (type(a) == type(b) and a.a == b.a and a.p == b.p)
                return same if op == "Eq" else not same
            if op == "Offset":
                if isinstance(a, Ptr) and isinstance(b, int) and a.p:
                    return Ptr(a.a, a.p[:-1] + (a.p[-1] + b,))
            raise Unsupported("pointer op " + op)
        bn = st.path.bnd
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            if not isinstance(a, (int, T)) or not isinstance(b, (int, T)):
                raise Unsupported("cmp %r %r" % (a, b))
            return {"Eq": eq, "Ne": ne, "Lt": lt, "Le": le, "Gt": gt, "Ge": ge}[op](a, b, bn)
        bits = t.get("bits")
        signed = t.get("signed")
        if k == "char":
            bits, signed = 32, False
        if op in ("Add", "AddUnchecked"):
            return self.wrap(st, add(a, b), bits, signed)
        if op in ("Sub", "SubUnchecked"):
            return self.wrap(st, sub(a, b), bits, signed)
        if op in ("Mul", "MulUnchecked"):
            return self.wrap(st, mul(a, b), bits, signed)
        if op == "Div":
            return self.tdiv(st, a, b)
        if op == "Rem":
            return self.trem(st, a, b)
        if op in ("Shl", "ShlUnchecked"):
            if not isinstance(b, int):
                b = self.concretize(st, b)
            return self.wrap(st, mul(a, 1 << (b % bits)), bits, signed)
        if op in ("Shr", "ShrUnchecked"):
            if not isinstance(b, int):
                b = self.concretize(st, b)
            return div(a, 1 << (b % bits), bn)
        if op in ("BitAnd", "BitOr", "BitXor"):
            return self.bitop(st, op, a, b, bits, signed)
        if op == "Cmp":
            # Ordering: variants Less(-1)=0, Equal=1, Greater=2
            c = st.path.simp(lt(a, b, bn))
            if c is True:
                return Agg(0, ())
            d = st.path.simp(eq(a, b, bn))
            if c is False and d is True:
                return Agg(1, ())
            if c is False and d is False:
                return Agg(2, ())
            raise NeedBranch(c if not isinstance(c, bool) else d)
        raise Unsupported("binop " + op)

    def bitop(self, st, op, a, b, bits, signed):
        if isinstance(a, int) and isinstance(b, int):
            return {"BitAnd": a & b, "BitOr": a | b, "BitXor": a ^ b}[op]
        if isinstance(a, int):
            a, b = b, a
        lo, hi = st.path.iv(a)
        if isinstance(b, int) and b >= 0:
            bn = st.path.bnd
            if op == "BitAnd":
                if lo is not None and lo >= 0 or True:
                    # sum over runs of ones in the mask (two's complement floor semantics)
                    r = 0
                    i = 0
                    while (b >> i):
                        if (b >> i) & 1:
                            j = i
                            while (b >> j) & 1:
                                j += 1
                            r = add(r, mul(mod(div(a, 1 << i, bn), 1 << (j - i), bn), 1 << i))
                            i = j
                        else:
                            i += 1
                    return r
            if lo is not None and lo >= 0:
                andv = self.bitop(st, "BitAnd", a, b, bits, signed)
                if op == "BitOr":
                    return sub(add(a, b), andv)
                return sub(add(a, b), mul(2, andv))
        ia, ib = st.path.iv(a), st.path.iv(b)
        if not isinstance(b, int) and ia[0] is not None and ia[0] >= 0 and ib[0] is not None and ib[0] >= 0:
            # disjoint bit ranges: x < 2^k and y multiple of 2^k
            if op in ("BitOr", "BitXor"):
                for x, y in ((a, b), (b, a)):
                    h = st.path.iv(x)[1]
                    if h is not None:
                        kk = h.bit_length()
                        g = 0
                        from math import gcd
                        for _, v in y.m:
                            g = gcd(g, v)
                        if g % (1 << kk) == 0:
                            return add(a, b)
            # bitwise expansion when both are sums of 0/1 atoms times powers of two
            xa, xb = bits_of(a), bits_of(b)
            if xa is not None and xb is not None:
                r = 0
                for i in set(xa) | set(xb):
                    u, v = xa.get(i, 0), xb.get(i, 0)
                    uv = mul(u, v)
                    if op == "BitAnd":
                        w = uv
                    elif op == "BitOr":
                        w = sub(add(u, v), uv)
                    else:
                        w = sub(add(u, v), mul(2, uv))
                    r = add(r, mul(w, 1 << i))
                return r
        raise NeedFork(b if not isinstance(b, int) else a)

    def tdiv(self, st, a, b):
        bn = st.path.bnd
        bl, bh = st.path.iv(b)
        if isinstance(b, int) and b == 0:
            return 0
        if bl is not None and bl >= 0:
            al, ah = st.path.iv(a)
            if al is not None and al >= 0:
                return div(a, b, bn)
            if ah is not None and ah <= 0:
                return neg(div(neg(a), b, bn))
            raise NeedBranch(ge(a, 0))
        if bh is not None and bh < 0:
            return neg(self.tdiv(st, a, neg(b)))
        raise NeedBranch(ge(b, 0))

    def trem(self, st, a, b):
        if isinstance(b, int) and b == 0:
            return 0
        if isinstance(a, int) and isinstance(b, int):
            r = abs(a) % abs(b)
            return -r if a < 0 else r
        bl, bh = st.path.iv(b)
        if bl is not None and bl >= 0:
            al, ah = st.path.iv(a)
            if al is not None and al >= 0:
                return mod(a, b, st.path.bnd)
            if ah is not None and ah <= 0:
                return neg(mod(neg(a), b, st.path.bnd))
            raise NeedBranch(ge(a, 0))
        raise NeedBranch(ge(b, 0))

    def overflow_flag(self, st, r, bits, signed):
        lo, hi = rng(bits, signed)
        bn = st.path.bnd
        return Or(lt(r, lo, bn), gt(r, hi, bn))

    def cbin(self, st, op, a, b, ty, tyb):
        t = self.p.types[ty]
        bits, signed = t["bits"], t["signed"]
        if op in ("Add", "Sub", "Mul"):
            r = {"Add": add, "Sub": sub, "Mul": mul}[op](a, b)
            fl = self.overflow_flag(st, r, bits, signed)
            if fl is True:
                r = self.wrap(st, r, bits, signed)
            return Agg(0, (r, fl))
        if op in ("Shl", "Shr"):
            fl = Or(lt(b, 0), ge(b, bits))
            return Agg(0, (self.binop(st, op, a, b, ty, tyb), fl))
        raise Unsupported("cbin " + op)

    def unop(self, st, op, a, ty):
        t = self.p.types[ty]
        if op == "Not":
            if isinstance(a, (bool, B)):
                return Not(a)
            if t["signed"]:
                return sub(-1, a)
            return sub((1 << t["bits"]) - 1, a)
        if op == "Neg":
            return self.wrap(st, neg(a), t["bits"], t["signed"])
        if op == "PtrMetadata":
            if isinstance(a, Sl):
                return a.n
            return UNIT
        raise Unsupported("unop " + op)

    def cast(self, st, kind, v, fty, tty):
        tt = self.p.types[tty]
        ft = self.p.types[fty]
        if kind == "IntToInt":
            if isinstance(v, (bool, B)):
                v = b2i(v)
            if isinstance(v, Agg):  # C-like enum
                v = ft["variants"][v.v]["discr"]
            if tt["k"] == "char":
                return v
            return self.wrap(st, v, tt["bits"], tt["signed"])
        if kind in ("PtrToPtr", "Subtype", "FnPtrToPtr", "BoxDerefTransmute", "PointerExposeAddress", "PointerWithExposedProvenance"):
            return v
        if kind.startswith("PointerCoercion(Unsize"):
            return self.unsize(st, v, ft, tt, fty, tty)
        if kind.startswith("PointerCoercion(ReifyFnPointer"):
            return FnV(ft["ptrinst"])
        if kind.startswith("PointerCoercion(ClosureFnPointer"):
            return FnV(ft["once"])
        if kind.startswith("PointerCoercion"):
            return v
        if kind == "Transmute":
            return self.transmute(st, v, fty, tty)
        raise Unsupported("cast " + kind)

    def transmute(self, st, v, fty, tty):
        ft, tt = self.p.types[fty], self.p.types[tty]
        if ft["n"] == tt["n"]:
            return v
        if isinstance(v, (Ptr, Sl, Dyn, FnV)):
            return v
        if isinstance(v, (int, T)) and not isinstance(v, bool):
            if tt["k"] == "int":
                return self.wrap(st, v, tt["bits"], tt["signed"])
            if tt["k"] == "array" and self.p.types[tt["elem"]]["k"] == "int":
                n = tt["len"]
                eb = self.p.types[tt["elem"]]["bits"]
                u = v
                if ft.get("signed"):
                    u = mod(v, 1 << ft["bits"], st.path.bnd)
                return Agg(0, tuple(mod(div(u, 1 << (eb * i), st.path.bnd), 1 << eb, st.path.bnd) for i in range(n)))
            if tt["k"] == "adt" and tt["kind"] == "struct" or tt["k"] == "adt":
                return v  # transparent wrapper, see getv
            if tt["k"] == "char":
                return v
        if isinstance(v, (Agg, Seq)) and tt["k"] == "int":
            f = v.f
            if ft["k"] == "array":
                eb = self.p.types[ft["elem"]]["bits"]
                r = 0
                for i, x in enumerate(f):
                    r = add(r, mul(x, 1 << (eb * i)))
                return self.wrap(st, r, tt["bits"], tt["signed"])
            if ft["k"] == "adt" and ft["kind"] == "enum":
                return ft["variants"][v.v]["discr"]
            x = v
            while isinstance(x, Agg) and len(x.f) == 1:
                x = x.f[0]
            if isinstance(x, (int, T)):
                return x
        if isinstance(v, Agg):
            if ft["lay"] and tt["lay"] and ft["lay"]["size"] == tt["lay"]["size"]:
                # wrapper peeling heuristics: struct{T} <-> T, arrays of same
                if tt["k"] == "adt" and tt["kind"] == "struct" and ft["k"] != "adt":
                    return Agg(0, (v,))
                if ft["k"] == "adt" and ft["kind"] in ("struct", "union") and tt["k"] in ("array", "tuple"):
                    x = v
                    while isinstance(x, Agg) and len(x.f) == 1 and isinstance(x.f[0], Agg):
                        x = x.f[0]
                    return x
                return v
        if v is UNINIT or isinstance(v, Opaque):
            return v
        raise Unsupported("transmute %s -> %s of %r" % (ft["n"], tt["n"], v))

    def unsize(self, st, v, ft, tt, fty, tty):
        # &[T;N] -> &[T]; &T -> &dyn; Box likewise
        def pointee(t):
            if t["k"] in ("ref", "rawptr"):
                return t["elem"]
            if t["k"] == "adt":
                return t["targs"][0]
            return None
        fp, tp = pointee(ft), pointee(tt)
        fpt, tpt = self.p.types[fp], self.p.types[tp]
        if isinstance(v, Agg):  # struct wrapper around pointer
            raise Unsupported("unsize of aggregate")
        if tpt["k"] == "slice":
            return Sl(v.a, v.p, 0, fpt["len"])
        if tpt["k"] == "dyn":
            if isinstance(v, Dyn):
                return v
            return Dyn(v, fp)
        raise Unsupported("unsize to " + tpt["n"])

    # ------------------------------------------------------------ rvalues
    def rvalue(self, st, base, rv):
        k = rv[0]
        if k == "use":
            return self.operand(st, base, rv[1])
        if k == "ref" or k == "addr":
            a, path, sl = self.place(st, base, rv[1])
            if sl is not None:
                if sl[0] == "dyn":
                    return Dyn(Ptr(a, path), sl[1])
                return Sl(a, path, sl[0], sl[1])
            v = self._peek(st, a, path)
            return Ptr(a, path)
        if k == "bin":
            return self.binop(st, rv[1], self.operand(st, base, rv[2]), self.operand(st, base, rv[3]), rv[4], rv[5])
        if k == "cbin":
            return self.cbin(st, rv[1], self.operand(st, base, rv[2]), self.operand(st, base, rv[3]), rv[4], rv[5])
        if k == "un":
            return self.unop(st, rv[1], self.operand(st, base, rv[2]), rv[3])
        if k == "cast":
            return self.cast(st, rv[1], self.operand(st, base, rv[2]), rv[3], rv[4])
        if k == "agg":
            kind, v, ops, ty = rv[1], rv[2], rv[3], rv[4]
            fs = tuple(self.operand(st, base, o) for o in ops)
            if kind == "adt":
                t = self.p.types[ty]
                if is_big(t):
                    return Big.of_limbs(fs[0].f)
                return Agg(v, fs)
            if kind == "rawptr":
                return fs[0]
            if kind == "union":
                return fs[0]
            return Agg(0, fs)
        if k == "discr":
            v = self.read_place(st, base, rv[1])
            t = self.p.types[rv[2]]
            if isinstance(v, Agg):
                if t["k"] == "adt":
                    return t["variants"][v.v]["discr"]
                return 0
            if isinstance(v, It) and t["k"] == "adt":
                return 0
            raise Unsupported("discriminant of %r : %s" % (v, t["n"]))
        if k == "len":
            a, path, sl = self.place(st, base, rv[1])
            if sl is not None:
                return sl[1]
            return len(self.read(st, a, path).f)
        if k == "repeat":
            v = self.operand(st, base, rv[1])
            return Agg(0, (v,) * rv[2])
        raise Unsupported("rvalue " + k)

    # ------------------------------------------------------------ execution
    def push_call(self, st, inst, args, dest, target):
        fn = self.p.fns[inst]
        body = fn["body"]
        if body is None:
            raise Unsupported("no body: " + fn["n"])
        self.fns_used.add(inst)
        st.ctr["fr"] = st.ctr.get("fr", 0) + 1
        base = ("l", st.ctr["fr"])
        fr = Frame(inst, base, dest, target)
        if len(args) != body["argc"]:
            # rust-call untupling
            if len(args) == 2 and isinstance(args[1], Agg) and 1 + len(args[1].f) == body["argc"]:
                args = [args[0]] + list(args[1].f)
            elif body["spread"] is not None:
                n = body["spread"] - 1
                args = list(args[:n]) + [Agg(0, tuple(args[n:]))]
            else:
                raise Unsupported("arity of %s: %d vs %d" % (fn["n"], len(args), body["argc"]))
        for i, a in enumerate(args):
            st.mem[base + (i + 1,)] = a
        if self.hooked is not None:
            h = self.hooked.get(inst, 0)
            if h == 0:
                h = self.hooked[inst] = self.contracts.get(base_name(fn["n"]))
            if h is not None:
                fr.pst = (h, tuple(args))
        if inst in self.memo_insts and fr.pst is None and all(isinstance(a, int) for a in args):
            fr.pst = (self.memo_store, tuple(args))
        st.frames.append(fr)
        if len(st.frames) > 400:
            raise BoundExceeded("call depth")

    def memo_store(self, ex, st, inst, args, v):
        self.memo[(inst,) + args] = v
        return ()

    def ret_to_caller(self, st, fr, v):
        if fr.dest is None:
            st.outcome = "ret"
            st.ret = v
            return
        caller = st.frames[-1]
        if caller.py is not None:
            self.run_py(st, caller, v)
            return
        a, path = fr.dest
        self.write(st, a, path, v)
        caller.bb = fr.target
        caller.si = 0
        if fr.target is None:
            st.outcome = "panic"
            st.ret = "call with no target returned"

    def pop_frame(self, st):
        fr = st.frames.pop()
        b = fr.base
        if b is not None:
            n = len(self.p.fns[fr.fn]["body"]["locals"])
            mem = st.mem
            for i in range(n):
                mem.pop(b + (i,), None)
        return fr

    def run_py(self, st, fr, last):
        """advance pseudo frame with the result of its last call"""
        r = fr.py(self, st, fr.pst, last)
        self.py_result(st, fr, r)

    def py_result(self, st, fr, r):
        if isinstance(r, CallReq):
            fr.pst = r.pst
            self.do_call(st, r.inst, r.args, ("py",), None)
        elif isinstance(r, Alts):
            raise PyAlts(r, fr)
        elif isinstance(r, Panic):
            st.outcome = "panic"
            st.ret = r.msg
        else:
            st.frames.pop()
            self.ret_to_caller(st, fr, r)

    def do_call(self, st, inst, args, dest, target, argtys=None, destty=None):
        """dest: (alloc,path) / ('py',) / None"""
        h = self.lookup(inst)
        if h is not None:
            r = h(self, st, self.p.fns[inst], args)
            return self.finish_model(st, r, dest, target)
        if inst in self.memo_insts:
            r = self.memo.get((inst,) + tuple(args)) if all(isinstance(a, int) for a in args) else None
            if r is not None:
                self.fns_used.add(inst)
                return self.finish_model(st, r, dest, target)
        self.push_call(st, inst, args, dest, target)

    def finish_model(self, st, r, dest, target):
        if isinstance(r, Alts):
            raise ModelAlts(r, dest, target)
        if isinstance(r, Panic):
            st.outcome = "panic"
            st.ret = r.msg
            return
        if isinstance(r, Replace):
            return self.do_call(st, r.inst, r.args, dest, target)
        if isinstance(r, PyCall):
            fr = Frame(None, None, dest, target)
            fr.py = r.step
            fr.pst = r.pst
            st.frames.append(fr)
            self.run_py(st, fr, None)
            return
        # plain value
        fr = Frame(None, None, dest, target)
        self.ret_to_caller(st, fr, r)

    def lookup(self, inst):
        if inst in self.model_cache:
            return self.model_cache[inst]
        fn = self.p.fns[inst]
        bn = base_name(fn["n"])
        h = None
        if bn in self.summaries:
            h = self.summaries[bn]
        if h is None:
            from models import find_model
            h = find_model(self, fn, bn)
        self.model_cache[inst] = h
        return h

    def branch_feasible(self, st):
        self.stats["feas"] += 1
        if self.feas is None:
            return True
        r = self.feas(st.path)
        if not r:
            self.stats["pruned"] += 1
        return r

    def run(self, st, limit=None):
        """explore all paths from st; yields finished states"""
        work = [st]
        npaths = 0
        while work:
            s = work.pop()
            try:
                while s.outcome is None:
                    self.step(s, work)
                    if s.outcome == "dead":
                        break
            except Unsupported as e:
                tr = self.trace(s)
                raise Unsupported("%s\n  at %s" % (e, "\n     ".join(tr))) from e
            if s.outcome == "dead":
                continue
            if s.outcome == "panic" and self.ignore_panics:
                self.stats["assumed_panics"] += 1
                continue
            npaths += 1
            self.stats["paths"] += 1
            if npaths > self.max_paths:
                raise BoundExceeded("paths > %d" % self.max_paths)
            yield s

    def trace(self, s):
        out = []
        for f in reversed(s.frames[-12:]):
            if f.fn is not None:
                out.append("%s bb%d" % (self.p.fns[f.fn]["n"][:160], f.bb))
            else:
                out.append("py %s" % getattr(f.py, "__name__", f.py))
        return out

    def fork_on(self, st, conds, work):
        """split st by the list of conditions; returns list of feasible states (st mutated/killed)"""
        self.stats["branches"] += 1
        out = []
        live = [c for c in (st.path.simp(c) for c in conds) if c is not False]
        n = len(live)
        res = []
        for c in conds:
            c2 = st.path.simp(c)
            if c2 is False:
                res.append(None)
                continue
            s2 = st.fork()
            okk = s2.path.assume(c2)
            if not okk:
                res.append(None)
                continue
            if c2 is not True and not self.branch_feasible(s2):
                res.append(None)
                continue
            res.append(s2)
        return res

    def step(self, st, work):
        fr = st.frames[-1]
        if fr.py is not None:
            raise Unsupported("pseudo frame on top")
        fn = self.p.fns[fr.fn]
        body = fn["body"]
        blk = body["blocks"][fr.bb]
        base = fr.base
        stmts = blk["s"]
        n = len(stmts)
        try:
            while fr.si < n:
                s = stmts[fr.si]
                k = s[0]
                if k == "=":
                    v = self.rvalue(st, base, s[2])
                    pl = s[1]
                    if not pl[1]:
                        st.mem[base + (pl[0],)] = v
                    else:
                        a, path, sl = self.place(st, base, pl)
                        self.write(st, a, path, v)
                elif k == "setd":
                    a, path, sl = self.place(st, base, s[1])
                    v = self.read(st, a, path)
                    self.write(st, a, path, Agg(s[2], v.f if isinstance(v, Agg) else ()))
                elif k == "cno":
                    raise Unsupported("copy_nonoverlapping")
                fr.si += 1
                st.steps += 1
            st.steps += 1
            self.stats["steps"] += 1
            if st.steps > self.max_steps:
                raise BoundExceeded("steps > %d in %s" % (self.max_steps, self.trace(st)[:4]))
            self.terminator(st, fr, base, blk["t"], work)
        except NeedFork as e:
            self.fork_concrete(st, e.t, work)
        except NeedBranch as e:
            self.fork_bool(st, e.c, work)
        except ModelAlts as e:
            self.resolve_alts(st, e.r, e.dest, e.target, work)
        except PyAlts as e:
            self.resolve_pyalts(st, e.r, work)

    def fork_bool(self, st, c, work):
        res = self.fork_on(st, [c, Not(c)], work)
        for s in res:
            if s is not None:
                work.append(s)
        st.outcome = "dead"

    def fork_concrete(self, st, t, work):
        lo, hi = st.path.iv(t)
        if lo is None or hi is None or hi - lo > 600:
            raise Unsupported("cannot concretize %r in [%s,%s]" % (t, lo, hi))
        for v in range(lo, hi + 1):
            s = st.fork()
            if not s.path.assume(eq(t, v, s.path.bnd)):
                continue
            # substitute bound so that interval(t) is a point
            if self.branch_feasible(s):
                work.append(s)
        st.outcome = "dead"

    def resolve_alts(self, st, r, dest, target, work):
        res = self.fork_on(st, [a[0] for a in r.alts], work)
        for s, alt in zip(res, r.alts):
            if s is None:
                continue
            v = alt[1]
            if len(alt) > 2 and alt[2] is not None:
                alt[2](s)
            if callable(v):
                v = v(s)
            try:
                self.finish_model(s, v, dest, target)
            except ModelAlts as e:
                self.resolve_alts(s, e.r, e.dest, e.target, work)
                continue
            except PyAlts as e:
                self.resolve_pyalts(s, e.r, work)
                continue
            work.append(s)
        st.outcome = "dead"

    def resolve_pyalts(self, st, r, work):
        res = self.fork_on(st, [a[0] for a in r.alts], work)
        for s, alt in zip(res, r.alts):
            if s is None:
                continue
            fr = s.frames[-1]
            v = alt[1]
            if callable(v):
                v = v(s)
            try:
                self.py_result(s, fr, v)
            except ModelAlts as e:
                self.resolve_alts(s, e.r, e.dest, e.target, work)
                continue
            except PyAlts as e:
                self.resolve_pyalts(s, e.r, work)
                continue
            work.append(s)
        st.outcome = "dead"

    def terminator(self, st, fr, base, t, work):
        k = t[0]
        if k == "goto":
            fr.bb = t[1]
            fr.si = 0
            self.loop_guard(st, fr)
            return
        if k == "ret":
            v = st.mem.get(base + (0,), UNIT)
            f = self.pop_frame(st)
            if not st.frames:
                st.outcome = "ret"
                st.ret = v
                return
            if f.pst is not None:
                for c in f.pst[0](self, st, f.fn, f.pst[1], v):
                    if not st.path.assume(c):
                        st.outcome = "dead"
                        return
            self.ret_to_caller(st, f, v)
            return
        if k == "switch":
            v = self.operand(st, base, t[1])
            br, other = t[2], t[3]
            ty = self.p.types[t[4]]
            if isinstance(v, bool):
                v = int(v)
            if isinstance(v, int):
                if ty.get("signed"):
                    v &= (1 << ty["bits"]) - 1
                for val, bb in br:
                    if val == v:
                        fr.bb = bb
                        break
                else:
                    fr.bb = other
                fr.si = 0
                return
            if isinstance(v, B):
                c = st.path.simp(v)
                conds, tg = [], []
                seen = []
                for val, bb in br:
                    conds.append(c if val else Not(c))
                    tg.append(bb)
                if len(br) == 1:
                    conds.append(Not(c) if br[0][0] else c)
                    tg.append(other)
                self.multi(st, conds, tg, work)
                return
            if isinstance(v, T):
                conds, tg = [], []
                for val, bb in br:
                    if ty.get("signed") and val >= 1 << (ty["bits"] - 1):
                        val -= 1 << ty["bits"]
                    conds.append(eq(v, val, st.path.bnd))
                    tg.append(bb)
                conds.append(And(*[Not(c) for c in conds]))
                tg.append(other)
                self.multi(st, conds, tg, work)
                return
            raise Unsupported("switch on %r" % (v,))
        if k == "call":
            self.call(st, fr, base, t, work)
            return
        if k == "assert":
            c = self.operand(st, base, t[1])
            c = c if t[2] else Not(c)
            c = st.path.simp(c)
            if c is True:
                fr.bb = t[3]
                fr.si = 0
                return
            if c is False:
                st.outcome = "panic"
                st.ret = t[4] + " @ " + t[5]
                return
            if self.ignore_panics:
                self.stats["assumed_panics"] += 1
                if not st.path.assume(c):
                    st.outcome = "dead"
                    return
                fr.bb = t[3]
                fr.si = 0
                return
            res = self.fork_on(st, [c, Not(c)], work)
            if res[0] is not None:
                f2 = res[0].frames[-1]
                f2.bb = t[3]
                f2.si = 0
                work.append(res[0])
            if res[1] is not None:
                res[1].outcome = "panic"
                res[1].ret = t[4] + " @ " + t[5]
                work.append(res[1])
            st.outcome = "dead"
            return
        if k == "unreachable":
            st.outcome = "dead"
            return
        if k in ("resume", "abort"):
            st.outcome = "panic"
            st.ret = k
            return
        raise Unsupported("terminator " + k)

    def loop_guard(self, st, fr):
        pass

    def multi(self, st, conds, targets, work):
        cs = [st.path.simp(c) for c in conds]
        for c, bb in zip(cs, targets):
            if c is True:
                fr = st.frames[-1]
                fr.bb = bb
                fr.si = 0
                return
        live = [i for i, c in enumerate(cs) if c is not False]
        if len(live) == 1:
            # all others impossible
            if not st.path.assume(cs[live[0]]):
                st.outcome = "dead"
                return
            fr = st.frames[-1]
            fr.bb = targets[live[0]]
            fr.si = 0
            return
        res = self.fork_on(st, conds, work)
        for s, bb in zip(res, targets):
            if s is not None:
                f = s.frames[-1]
                f.bb = bb
                f.si = 0
                work.append(s)
        st.outcome = "dead"

    def call(self, st, fr, base, t, work):
        f, fty, ops, dpl, target, atys, dty = t[1], t[2], t[3], t[4], t[5], t[6], t[7]
        ft = self.p.types[fty]
        args = [self.operand(st, base, o) for o in ops]
        if ft["k"] == "fndef":
            inst = ft["inst"]
            if inst is None:
                raise Unsupported("unresolved call " + ft["n"])
        else:
            fv = self.operand(st, base, f)
            if not isinstance(fv, FnV):
                raise Unsupported("call of %r" % (fv,))
            inst = fv.inst
        a, path, sl = self.place(st, base, dpl)
        fn = self.p.fns[inst]
        # destination of diverging calls is irrelevant
        if fn["kind"].startswith("virtual"):
            from models import virtual_call
            r = virtual_call(self, st, fn, args, atys)
            self.finish_model(st, r, (a, path), target)
            return
        if ft["k"] == "fndef" and fn["kind"] == "item" and len(args) == 2 and isinstance(args[1], Agg) and FNCALL.search(ft["def"]):
            args = [args[0]] + list(args[1].f)
        self.do_call(st, inst, args, (a, path), target)

    # ------------------------------------------------------------ entry
    def start(self, root, args, st):
        inst = self.p.roots[root]
        self.push_call(st, inst, list(args), None, None)
        return st


class NeedFork(Exception):
    def __init__(self, t):
        self.t = t


class NeedBranch(Exception):
    def __init__(self, c):
        self.c = c


class ModelAlts(Exception):
    def __init__(self, r, dest, target):
        self.r = r
        self.dest = dest
        self.target = target


class PyAlts(Exception):
    def __init__(self, r, fr):
        self.r = r
        self.fr = fr


FNCALL = re.compile(r"ops::(function::)?(FnOnce::call_once|FnMut::call_mut|Fn::call)$")
BIGRE = re.compile(r"^decimal::(uint::)?U(\d+)$")


def is_big(t):
    return t["k"] == "adt" and BIGRE.match(t["adt"]) is not None


def big_limbs(p, t):
    return int(BIGRE.match(t["adt"]).group(2)) // 64


def bits_of(t):
    """decompose as sum of (0/1 atom) * 2^i with distinct i; None if not of that form"""
    if isinstance(t, int):
        if t < 0:
            return None
        return {i: 1 for i in range(t.bit_length()) if (t >> i) & 1}
    out = {}
    for mono, c in t.m:
        if c <= 0:
            return None
        if mono == ():
            for i in range(c.bit_length()):
                if (c >> i) & 1:
                    if i in out:
                        return None
                    out[i] = 1
            continue
        if c & (c - 1):
            return None
        for a in mono:
            at = Atom.lst[a]
            if at.lo != 0 or at.hi != 1:
                return None
        i = c.bit_length() - 1
        if i in out:
            return None
        out[i] = _mk1(mono)
    return out
