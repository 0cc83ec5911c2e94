"""Models of library functions (std containers, integers, 256/320-bit integers, cosmwasm host API).

Everything else is executed from its MIR.  Library modules whose MIR manipulates raw memory are never
executed: they are either modelled here or reported as unsupported."""
import re
from interp import *
from terms import *
from values import *

LESS, EQUAL, GREATER = Agg(0, ()), Agg(1, ()), Agg(2, ())
INTS = {"u8": (8, False), "u16": (16, False), "u32": (32, False), "u64": (64, False), "u128": (128, False), "usize": (64, False),
        "i8": (8, True), "i16": (16, True), "i32": (32, True), "i64": (64, True), "i128": (128, True), "isize": (64, True)}


# ---------------------------------------------------------------- names
def split_name(bn):
    """(self type, trait, method) of a base name"""
    m = re.match(r"^(.*)::([A-Za-z_0-9]+|\{closure#\d+\})$", bn)
    if not m:
        return (bn, None, bn)
    head, meth = m.group(1), m.group(2)
    if head.startswith("<") and " as " in head and head.endswith(">"):
        inner = head[1:-1]
        # split at the top-level ' as '
        d = 0
        for i in range(len(inner)):
            c = inner[i]
            if c in "<([":
                d += 1
            elif c in ">)]" and inner[i - 1] != "-":
                d -= 1
            elif d == 0 and inner.startswith(" as ", i):
                return (inner[:i], inner[i + 4:], meth)
    m = re.match(r"^(.*::)?<impl (.*)>$", head)
    if m:
        inner = m.group(2)
        m2 = re.match(r"^([\w:]+) for (.*)$", inner)
        if m2:
            return (m2.group(2), m2.group(1), meth)
        return (inner, None, meth)
    return (head, None, meth)


def last(s):
    return s.rsplit("::", 1)[-1]


def cls(s):
    if s in INTS:
        return "int"
    if s in ("bool", "char", "str"):
        return s
    if s.startswith("&"):
        return "ref"
    if s.startswith("["):
        return "array" if ";" in s else "slice"
    if s.startswith("("):
        return "tuple"
    if BIGRE.match(s):
        return "big"
    if s.startswith(("std::", "core::", "alloc::")):
        return last(s)
    return "adt"


# ---------------------------------------------------------------- value helpers
def elems(ex, st, p):
    """element tuple behind a slice/str/Vec/array pointer"""
    v = ex.deref(st, p)
    return flat(ex, v)


def flat(ex, v):
    if isinstance(v, (Seq, Agg)):
        return v.f
    if isinstance(v, Opaque):
        return v
    raise Unsupported("elements of %r" % (v,))


def as_slice(ex, st, p):
    """normalise a pointer to Vec/String/array/slice into Sl (or Ptr to an opaque)"""
    if isinstance(p, Sl):
        return p
    v = ex.deref(st, p)
    if isinstance(v, (Ptr, Sl)):      # Box<[T]> or nested reference
        return as_slice(ex, st, v)
    if isinstance(v, (Seq, Agg)):
        return Sl(p.a, p.p, 0, len(v.f))
    if isinstance(v, Opaque):
        return p
    raise Unsupported("as_slice of %r" % (v,))


def conc(ex, st, x):
    if isinstance(x, int):
        return x
    return ex.concretize(st, x)


def is_int(x):
    return isinstance(x, (int, T)) and not isinstance(x, bool)


def opq_eq(ex, a, b):
    if a is b or (a.tag == b.tag and a.data is b.data):
        return True
    return bvar("opaque_eq_%d_%d" % (id(a), id(b)))


def val_eq(ex, st, a, b):
    """structural equality as a boolean term"""
    if is_int(a) and is_int(b):
        return eq(a, b, st.path.bnd)
    if isinstance(a, (bool, B)) or isinstance(b, (bool, B)):
        return Iff(a, b)
    if isinstance(a, Big) and isinstance(b, Big):
        return eq(a.t, b.t, st.path.bnd)
    if isinstance(a, (Ptr, Sl)) and isinstance(b, (Ptr, Sl)):
        return val_eq(ex, st, ex.deref(st, a), ex.deref(st, b))
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        if isinstance(a, Opaque) and isinstance(b, Opaque):
            if a.tag == b.tag and a.tag == "ser":
                return val_eq(ex, st, a.data[1], b.data[1])
            if a is b or (a.tag == b.tag and a.data is not None and a.data is b.data):
                return True
        raise Unsupported("equality of opaque values %r %r" % (a, b))
    if isinstance(a, (Seq, Agg)) and isinstance(b, (Seq, Agg)):
        if isinstance(a, Agg) and isinstance(b, Agg) and a.v != b.v:
            return False
        if len(a.f) != len(b.f):
            return False
        if a.f and all(is_int(x) for x in a.f) and all(is_int(x) for x in b.f) and isinstance(a, Seq):
            return bytes_eq(st, a.f, b.f)
        r = True
        for x, y in zip(a.f, b.f):
            r = And(r, val_eq(ex, st, x, y))
            if r is False:
                return False
        return r
    raise Unsupported("equality of %r and %r" % (a, b))


def pack(bs):
    r = 0
    for b in bs:
        r = add(mul(r, 256), b)
    return r


def bytes_like(st, f):
    for x in f:
        if isinstance(x, int):
            if not 0 <= x < 256:
                return False
        else:
            lo, hi = st.path.iv(x)
            if lo is None or hi is None or lo < 0 or hi > 255:
                return False
    return True


def bytes_eq(st, a, b):
    if len(a) != len(b):
        return False
    if a == b:
        return True
    for x, y in zip(a, b):
        if isinstance(x, int) and isinstance(y, int) and x != y:
            return False
    if not (bytes_like(st, a) and bytes_like(st, b)):
        r = True
        for x, y in zip(a, b):
            r = And(r, eq(x, y, st.path.bnd))
        return r
    # split into maximal runs so that recombined integers telescope; equal pieces are dropped
    i = 0
    n = len(a)
    r = True
    while i < n:
        if a[i] is b[i] or (isinstance(a[i], int) and isinstance(b[i], int)):
            i += 1
            continue
        j = i
        while j < n and not (a[j] is b[j] or (isinstance(a[j], int) and isinstance(b[j], int))):
            j += 1
        r = And(r, bytes_run_eq(st, a[i:j], b[i:j]))
        if r is False:
            return False
        i = j
    return r


def bytes_run_eq(st, a, b):
    t = sub(pack(a), pack(b))
    c = eq0(t, st.path.bnd)
    return c


def lexcmp(ex, st, a, b):
    """(lt, eq) of two concrete-length integer sequences"""
    if not (bytes_like(st, a) and bytes_like(st, b)):
        # generic lexicographic comparison
        bn = st.path.bnd
        ltc, eqc = False, True
        for x, y in zip(a, b):
            ltc = Or(ltc, And(eqc, lt(x, y, bn)))
            eqc = And(eqc, eq(x, y, bn))
        if len(a) < len(b):
            ltc, eqc = Or(ltc, eqc), False
        elif len(a) > len(b):
            eqc = False
        return ltc, eqc
    m = min(len(a), len(b))
    A, Bv = pack(a[:m]), pack(b[:m])
    bn = st.path.bnd
    if len(a) == len(b):
        return lt(A, Bv, bn), eq(A, Bv, bn)
    if len(a) < len(b):
        return le(A, Bv, bn), False
    return lt(A, Bv, bn), False


def val_cmp(ex, st, a, b):
    bn = st.path.bnd
    if is_int(a) and is_int(b):
        return lt(a, b, bn), eq(a, b, bn)
    if isinstance(a, Big):
        return lt(a.t, b.t, bn), eq(a.t, b.t, bn)
    if isinstance(a, (Ptr, Sl)):
        return val_cmp(ex, st, ex.deref(st, a), ex.deref(st, b))
    if isinstance(a, (bool, B)):
        return And(Not(a), b), Iff(a, b)
    if isinstance(a, (Seq, Agg)):
        if isinstance(a, Agg) and isinstance(b, Agg) and a.v != b.v:
            return a.v < b.v, False
        if all(is_int(x) for x in a.f) and all(is_int(x) for x in b.f):
            return lexcmp(ex, st, a.f, b.f)
        ltc, eqc = False, True
        for x, y in zip(a.f, b.f):
            l, e = val_cmp(ex, st, x, y)
            ltc = Or(ltc, And(eqc, l))
            eqc = And(eqc, e)
        if len(a.f) < len(b.f):
            ltc, eqc = Or(ltc, eqc), False
        elif len(a.f) > len(b.f):
            eqc = False
        return ltc, eqc
    raise Unsupported("compare %r %r" % (a, b))


def cmp_alts(l, e, wrap=lambda o: o):
    return Alts([(l, wrap(LESS)), (e, wrap(EQUAL)), (And(Not(l), Not(e)), wrap(GREATER))])


# ---------------------------------------------------------------- iterators
def it_next(ex, st, p):
    """advance modelled iterator stored at pointer p; returns Option value"""
    it = ex.deref(st, p)
    k = it.kind
    if k == "slice":
        a, pp, s, e = it.d
        if s >= e:
            return NONE
        ex.store(st, p, It(k, (a, pp, s + 1, e)))
        return some(Ptr(a, pp + (s,)))
    if k == "vals":
        vals, s, e = it.d
        if s >= e:
            return NONE
        ex.store(st, p, It(k, (vals, s + 1, e)))
        return some(vals[s])
    if k == "subslices":
        lst, s, e = it.d
        if s >= e:
            return NONE
        ex.store(st, p, It(k, (lst, s + 1, e)))
        return some(lst[s])
    raise Unsupported("iterator kind " + k)


def it_next_back(ex, st, p):
    it = ex.deref(st, p)
    k = it.kind
    d = it.d
    s, e = d[-2], d[-1]
    if s >= e:
        return NONE
    ex.store(st, p, It(k, d[:-1] + (e - 1,)))
    if k == "slice":
        return some(Ptr(d[0], d[1] + (e - 1,)))
    return some(d[0][e - 1])


def it_len(it):
    return max(0, it.d[-1] - it.d[-2])


def mk_slice_iter(ex, st, p):
    s = as_slice(ex, st, p)
    if not isinstance(s, Sl):
        raise Unsupported("iterate over opaque")
    return It("slice", (s.a, s.p, s.s, s.s + s.n))


def mk_vals(vals):
    return It("vals", (tuple(vals), 0, len(vals)))


def drive(ex, st, itv, ity, on_item, on_end, acc):
    """PyCall that pulls every element of iterator value itv (type id ity).
    on_item(ex, st, acc, item) -> ("acc", acc) | ("ret", value) | CallReq-like ("call", inst, args, resume) ;
    on_end(ex, st, acc) -> value"""
    if isinstance(itv, Seq):
        itv = mk_vals(itv.f)
    box = ex.new_ptr(st, itv)

    def step(ex, st, pst, lastv):
        mode, acc = pst
        while True:
            if mode == "pull":
                if isinstance(ex.deref(st, box), It):
                    lastv = it_next(ex, st, box)
                else:
                    inst = ex.p.iter_next.get(ity)
                    if inst is None:
                        raise Unsupported("no Iterator::next for " + ex.p.types[ity]["n"])
                    return CallReq(inst, [box], ("got", acc))
                mode = "got"
            if mode == "got":
                if lastv.v == 0:
                    return on_end(ex, st, acc)
                r = on_item(ex, st, acc, lastv.f[0])
                if r[0] == "acc":
                    acc = r[1]
                    mode = "pull"
                    continue
                if r[0] == "ret":
                    return r[1]
                if r[0] == "call":
                    return CallReq(r[1], r[2], (("res", r[3]), acc))
            if isinstance(mode, tuple):
                r = mode[1](ex, st, acc, lastv)
                if r[0] == "acc":
                    acc = r[1]
                    mode = "pull"
                    continue
                if r[0] == "ret":
                    return r[1]
                if r[0] == "alts":
                    return Alts([(c, (lambda s, x=x: cont(ex, s, x))) for c, x in r[1]])
            raise Unsupported("drive")

    def cont(ex, s, x):
        if x[0] == "ret":
            return x[1]
        return step(ex, s, ("pull", x[1]), None)

    return PyCall(step, ("pull", acc))


def closure_inst(ex, fn, name_end):
    return None


# ---------------------------------------------------------------- dispatch
PANIC_PAT = re.compile(r"(panicking::|unwrap_failed|expect_failed|slice_index_fail|len_mismatch_fail|begin_panic|panic_|handle_alloc_error|"
                       r"panic_cold|rt::panic|capacity_overflow|assert_failed|unreachable_display|_fail$|handle_error$)")

# library modules that may be executed from MIR
EXEC_OK = re.compile(
    r"^(<)?(&)?(std|core)::(option|result|ops|cmp|convert|iter|default|any|tuple|bool|clone|hint|array::|mem|char|slice::cmp|ascii|borrow|error)")
EXEC_TRAITS = {"Try", "FromResidual", "Default", "From", "Into", "TryFrom", "TryInto", "Iterator", "DoubleEndedIterator", "IntoIterator",
               "FnOnce", "FnMut", "Fn", "PartialEq", "PartialOrd", "Ord", "Eq", "Step", "RangeBounds", "RangeIteratorImpl",
               "RangeInclusiveIteratorImpl", "FromIterator", "ExactSizeIterator", "SpecFromIter", "Sum", "Product", "NeverShortCircuit", "Residual",
               "SpecOptionPartialEq", "AsRef", "AsMut", "Borrow", "ToOwned", "SliceContains", "Add", "Sub", "Mul", "Div", "Rem", "Neg", "Not",
               "BitAnd", "BitOr", "BitXor", "Shl", "Shr", "AddAssign", "SubAssign", "MulAssign", "DivAssign", "RemAssign", "ShlAssign",
               "ShrAssign", "BitAndAssign", "BitOrAssign", "BitXorAssign", "ZipImpl", "SpecTake", "Extend", "Deref", "DerefMut", "StepByImpl",
               "SpecRangeSetup", "FusedIterator", "ChainImpl", "Ordering", "Clone"}


def find_model(ex, fn, bn):
    kind = fn["kind"]
    if kind == "intrinsic":
        return lambda ex, st, fn, args: intrinsic(ex, st, fn, args)
    S, Tr, m = split_name(bn)
    tr = last(Tr) if Tr else None
    c = cls(S)
    if tr in ("PartialEq", "PartialOrd", "From") and c != "int" and fn["body"] is not None and re.search(
            r"(?: as |<impl )[\w:]+<&?(?:'\w+ )?(?:cosmwasm_std|cosmwasm_storage|cw20|cw721|cw_utils|oraiswap_v3)::\w+>(?: for .*)?>::", fn["n"]):
        return None
    h = _find(ex, fn, bn, S, tr, m, c)
    if h is not None:
        return h
    if fn["body"] is None:
        return _ctor(ex, fn) or _unsup("no body")
    lib = S.startswith(("std::", "core::", "alloc::")) or bn.startswith(("std::", "core::", "alloc::")) or c in (
        "int", "str", "slice", "array", "ref", "bool", "char", "tuple")
    if Tr and "::" in Tr and not Tr.startswith(("std::", "core::", "alloc::")):
        lib = False
    if kind == "shim":
        return None
    if lib:
        if bn.startswith("<fn(") or "closure" in bn:
            return None
        if tr in EXEC_TRAITS or EXEC_OK.match(bn):
            if S in ("std::string::String", "std::vec::Vec") or S.startswith(("std::collections", "std::rc", "std::sync", "alloc::")):
                if tr not in ("Into", "TryInto", "Default", "TryFrom"):
                    return _unsup("library")
            return None
        return _unsup("library")
    return None


def _ctor(ex, fn):
    """enum variant constructor used as a function"""
    n = fn["n"].split("::<")[0] if "::<" in fn["n"] else fn["n"].rpartition("::")[0]
    v = fn["n"].rpartition("::")[2]
    for t in (ex.p.types.values() if isinstance(ex.p.types, dict) else ex.p.types):
        if t.get("k") == "adt" and t.get("kind") == "enum" and t.get("adt") == n:
            for i, x in enumerate(t["variants"]):
                if x["name"] == v:
                    return lambda ex, st, fn, args, i=i: Agg(i, tuple(args))
    return None


def _unsup(why):
    def h(ex, st, fn, args):
        raise Unsupported("%s function not modelled: %s" % (why, fn["n"][:300]))
    return h


def _find(ex, fn, bn, S, tr, m, c):
    n = fn["n"]
    if bn.startswith("<") is False and PANIC_PAT.search(bn) and bn.startswith(("std::", "core::", "alloc::")):
        return lambda ex, st, fn, args: Panic(bn)
    if m == "precondition_check":
        return lambda ex, st, fn, args: UNIT
    # -------- integers
    if c == "int" and tr is None and bn.startswith("core::num::"):
        return int_method(S, m)
    if c == "int" and tr in ("From", "TryFrom") and (bn.startswith("std::convert::num") or bn.startswith("core::convert::num")
                                                    or bn.startswith("<") or "char" in bn):
        b, sg = INTS[S]
        if BIGRE.search(n.split("::try_from")[0].split("::from")[0]) or "decimal::" in n:
            return big_to_int(S)
        if tr == "From":
            return lambda ex, st, fn, args: b2i(args[0]) if isinstance(args[0], (bool, B)) else args[0]

        def tf(ex, st, fn, args):
            x = args[0]
            if not is_int(x):
                raise Unsupported("int try_from %r" % (x,))
            lo, hi = rng(b, sg)
            bad = Or(lt(x, lo, st.path.bnd), gt(x, hi, st.path.bnd))
            return Alts([(Not(bad), ok(x)), (bad, err(UNIT))])
        return tf
    if c == "int" and tr == "Ord" and m in ("max", "min"):
        def mm(ex, st, fn, args):
            a, b = args
            g = ge(a, b, st.path.bnd)
            if m == "max":
                return Alts([(g, a), (Not(g), b)])
            return Alts([(g, b), (Not(g), a)])
        return mm
    if c == "int" and tr == "Ord" and m == "clamp":
        def clampf(ex, st, fn, args):
            x, lo, hi = args
            bn = st.path.bnd
            return Alts([(lt(x, lo, bn), lo), (gt(x, hi, bn), hi), (And(ge(x, lo, bn), le(x, hi, bn)), x)])
        return clampf
    if c in ("int", "char", "bool") and tr in ("PartialOrd", "Ord", "PartialEq"):
        return cmp_method(m)
    if c == "int" and tr == "Step":
        if m in ("forward_unchecked", "forward", "forward_overflowing"):
            if m == "forward_overflowing":
                return None
            return lambda ex, st, fn, args: add(args[0], args[1])
        if m in ("backward_unchecked", "backward"):
            return lambda ex, st, fn, args: sub(args[0], args[1])
        if m == "forward_checked":
            b, sg = INTS[S]
            return lambda ex, st, fn, args: Alts([(le(add(args[0], args[1]), rng(b, sg)[1]), some(add(args[0], args[1]))),
                                                  (gt(add(args[0], args[1]), rng(b, sg)[1]), NONE)])
        return None
    if c == "int" and tr in ("ToString", "SpecToString"):
        return lambda ex, st, fn, args: tostring(ex, st, ex.deref(st, args[0]))
    if c == "int" and tr == "FromStr":
        return _unsup("library")
    if c == "int" and tr == "Pow":
        return int_method(S, "pow")
    # -------- big ints
    if c == "big":
        h = big_method(ex, fn, S, tr, m, n)
        if h is not None:
            return h
        return None
    if tr in ("From", "TryFrom") and "decimal::" in bn and c == "int":
        return big_to_int(S)
    # -------- clone
    if tr == "Clone" and m == "clone" and not S.startswith("vh"):
        return lambda ex, st, fn, args: ex.deref(st, args[0])
    if tr == "Clone" and m == "clone_from":
        def cf(ex, st, fn, args):
            ex.store(st, args[0], ex.deref(st, args[1]))
            return UNIT
        return cf
    # -------- strings & formatting
    if tr in ("ToString", "SpecToString") and m in ("to_string", "spec_to_string"):
        if c in ("String", "str", "ref") or S in ("cosmwasm_std::Addr",):
            return lambda ex, st, fn, args: str_copy(ex, st, args[0])
        return lambda ex, st, fn, args: tostring(ex, st, ex.deref(st, args[0]))
    if bn.startswith(("std::fmt::", "core::fmt::", "alloc::fmt::")) or "core::fmt::rt::" in bn or tr in ("Display", "Debug", "Write", "LowerHex", "UpperHex", "LowerExp"):
        if tr == "Write" or m in ("write_str", "write_fmt", "fmt"):
            return lambda ex, st, fn, args: ok(UNIT)
        if m == "as_str":
            return lambda ex, st, fn, args: NONE
        return lambda ex, st, fn, args: Opaque("fmt", None)
    if tr == "AsDisplay":
        return lambda ex, st, fn, args: args[0]
    if m in ("type_name", "type_name_of_val") and bn.startswith(("std::any", "core::any")):
        return lambda ex, st, fn, args: ex.new_str(st, ex.p.types[fn["targs"][0]]["n"])
    h = container_method(ex, fn, bn, S, tr, m, c)
    if h is not None:
        return h
    h = misc_method(ex, fn, bn, S, tr, m, c)
    if h is not None:
        return h
    h = host_method(ex, fn, bn, S, tr, m, c)
    return h


def tostring(ex, st, v):
    if isinstance(v, bool):
        return Seq(tuple(str(v).lower().encode()))
    if isinstance(v, int):
        return Seq(tuple(str(v).encode()))
    if isinstance(v, Opaque):
        return v
    if isinstance(v, Seq):
        return v
    return Opaque("fmt", v)


def str_copy(ex, st, p):
    v = ex.deref(st, p)
    while isinstance(v, (Ptr, Sl)):
        v = ex.deref(st, v)
    while isinstance(v, Agg) and len(v.f) == 1:
        v = v.f[0]
    if isinstance(v, (Seq, Opaque)):
        return v
    raise Unsupported("string copy of %r" % (v,))


# ---------------------------------------------------------------- integers
def cmp_method(m):
    def h(ex, st, fn, args):
        a, b = args[0], args[1]
        x = ex.deref(st, a) if isinstance(a, (Ptr, Sl)) else a
        y = ex.deref(st, b) if isinstance(b, (Ptr, Sl)) else b
        if m == "eq":
            return val_eq(ex, st, x, y)
        if m == "ne":
            return Not(val_eq(ex, st, x, y))
        l, e = val_cmp(ex, st, x, y)
        if m == "lt":
            return l
        if m == "le":
            return Or(l, e)
        if m == "gt":
            return And(Not(l), Not(e))
        if m == "ge":
            return Not(l)
        if m == "cmp":
            return cmp_alts(l, e)
        if m == "partial_cmp":
            return cmp_alts(l, e, some)
        if m in ("max", "min"):
            g = Not(l)
            u, v = (a, b) if m == "max" else (b, a)
            if m == "max":
                return Alts([(And(g, Not(e)), a), (Or(l, e), b)])
            return Alts([(Or(l, e), a), (And(Not(l), Not(e)), b)])
        if m.startswith("__chaining"):
            # ControlFlow<bool, ()>: Break(bool) when not equal, Continue when equal
            r = {"__chaining_lt": l, "__chaining_le": Or(l, e), "__chaining_gt": And(Not(l), Not(e)), "__chaining_ge": Not(l)}
            r["__chaining_less"] = l
            k = r.get(m)
            if k is None:
                raise Unsupported(m)
            return Alts([(e, Agg(0, (UNIT,))), (Not(e), Agg(1, (k,)))])
        raise Unsupported("cmp method " + m)
    return h


def fits(st, r, b, sg):
    lo, hi = rng(b, sg)
    return And(ge(r, lo, st.path.bnd), le(r, hi, st.path.bnd))


def ipow(ex, st, a, e):
    e = conc(ex, st, e)
    r = 1
    for _ in range(e):
        r = mul(r, a)
        if isinstance(r, int) and r.bit_length() > 2000:
            break
    return r


def bitlen_alts(ex, st, x, bits, f):
    """alternatives on the bit length of x: value f(bitlen)"""
    lo, hi = st.path.iv(x)
    l = lo.bit_length() if lo is not None and lo >= 0 else 0
    h = hi.bit_length() if hi is not None else bits
    al = []
    for k in range(l, h + 1):
        cnd = And(ge(x, (1 << (k - 1)) if k else 0), le(x, (1 << k) - 1))
        al.append((cnd, f(k)))
    return Alts(al)


def int_method(S, m):
    b, sg = INTS[S]
    LO, HI = rng(b, sg)

    def raw(ex, st, op, x, y):
        if op == "add":
            return add(x, y)
        if op == "sub":
            return sub(x, y)
        if op == "mul":
            return mul(x, y)
        if op == "div":
            return ex.tdiv(st, x, y)
        if op == "rem":
            return ex.trem(st, x, y)
        if op == "neg":
            return neg(x)
        if op == "pow":
            return ipow(ex, st, x, y)
        if op == "abs":
            return None
        if op == "shl":
            return mul(x, 1 << (conc(ex, st, y) % b))
        if op == "shr":
            return div(x, 1 << (conc(ex, st, y) % b), st.path.bnd)
        raise Unsupported("int op " + op)

    mm = re.match(r"^(checked|wrapping|overflowing|saturating|unchecked|strict)_(add|sub|mul|div|rem|neg|pow|shl|shr|abs|div_euclid|rem_euclid|add_signed|add_unsigned|sub_unsigned|ilog2|next_power_of_two|next_multiple_of|isqrt)$", m)
    if mm:
        mode, op = mm.group(1), mm.group(2)

        def h(ex, st, fn, args):
            x = args[0]
            y = args[1] if len(args) > 1 else None
            bn = st.path.bnd
            o = op
            if o in ("add_signed", "add_unsigned"):
                o = "add"
            if o == "sub_unsigned":
                o = "sub"
            if o in ("shl", "shr"):
                okc = lt(y, b, bn)
                if mode in ("checked", "strict"):
                    def doit(s):
                        r = raw(ex, s, o, x, y)
                        r = ex.wrap(s, r, b, sg)
                        return some(r) if mode == "checked" else r
                    if isinstance(y, int):
                        if y >= b:
                            return NONE if mode == "checked" else Panic(m)
                        return doit(st)
                    return Alts([(okc, doit), (Not(okc), NONE if mode == "checked" else Panic(m))])
                r = ex.wrap(st, raw(ex, st, o, x, y), b, sg)
                if mode == "overflowing":
                    return Agg(0, (r, Not(okc)))
                return r
            if o in ("div", "rem", "div_euclid", "rem_euclid"):
                nz = ne(y, 0, bn)
                nz = st.path.simp(nz)
                ovf = And(eq(x, LO, bn), eq(y, -1, bn)) if sg else False
                good = And(nz, Not(ovf))

                def val(s):
                    if o == "rem_euclid":
                        return euclid(ex, s, x, y)[1]
                    if o == "div_euclid":
                        return euclid(ex, s, x, y)[0]
                    return raw(ex, s, o, x, y)
                if mode == "checked":
                    if good is True:
                        return some(val(st))
                    if good is False:
                        return NONE
                    # the quotient is built only on the branch where the divisor is non-zero
                    return Alts([(good, lambda s: some(val(s))), (Not(good), NONE)])
                if good is True:
                    r = val(st)
                    return Agg(0, (r, False)) if mode == "overflowing" else r
                return Alts([(nz, lambda s: (Agg(0, (ex.wrap(s, val(s), b, sg), ovf)) if mode == "overflowing" else ex.wrap(s, val(s), b, sg))),
                             (Not(nz), Panic("division by zero"))])
            if o == "abs":
                neg_ = lt(x, 0, bn)
                ovf = eq(x, LO, bn)
                if mode == "checked":
                    return Alts([(ge(x, 0, bn), some(x)), (And(neg_, Not(ovf)), some(neg(x))), (ovf, NONE)])
                return Alts([(ge(x, 0, bn), x), (And(neg_, Not(ovf)), neg(x)), (ovf, LO)])
            r = raw(ex, st, o, x, y)
            okc = fits(st, r, b, sg)
            if mode == "checked":
                return Alts([(okc, some(r)), (Not(okc), NONE)])
            if mode == "strict":
                return Alts([(okc, r), (Not(okc), Panic(m))])
            if mode == "unchecked":
                return r
            if mode == "wrapping":
                return wrapped(ex, st, r, b, sg)
            if mode == "overflowing":
                return Agg(0, (wrapped_now(ex, st, r, b, sg), Not(okc)))
            if mode == "saturating":
                return Alts([(okc, r), (gt(r, HI, bn), HI), (lt(r, LO, bn), LO)])
            raise Unsupported(m)
        return h

    def simple(f):
        return lambda ex, st, fn, args: f(ex, st, args)

    if m == "pow":
        def h(ex, st, fn, args):
            r = ipow(ex, st, args[0], args[1])
            okc = fits(st, r, b, sg)
            return Alts([(okc, r), (Not(okc), Panic("pow overflow"))])
        return h
    if m in ("max_value",):
        return lambda ex, st, fn, args: HI
    if m in ("min_value",):
        return lambda ex, st, fn, args: LO
    if m in ("abs", "unsigned_abs"):
        def h(ex, st, fn, args):
            x = args[0]
            bn = st.path.bnd
            al = [(ge(x, 0, bn), x), (And(lt(x, 0, bn), ne(x, LO, bn)), neg(x))]
            al.append((eq(x, LO, bn), -LO if m == "unsigned_abs" else Panic("abs overflow")))
            return Alts(al)
        return h
    if m == "abs_diff":
        return lambda ex, st, fn, args: Alts([(ge(args[0], args[1], st.path.bnd), sub(args[0], args[1])),
                                              (lt(args[0], args[1], st.path.bnd), sub(args[1], args[0]))])
    if m == "signum":
        return lambda ex, st, fn, args: Alts([(gt(args[0], 0), 1), (eq(args[0], 0), 0), (lt(args[0], 0), -1)])
    if m == "is_negative":
        return lambda ex, st, fn, args: lt(args[0], 0, st.path.bnd)
    if m == "is_positive":
        return lambda ex, st, fn, args: gt(args[0], 0, st.path.bnd)
    if m in ("rem_euclid", "div_euclid"):
        def h(ex, st, fn, args):
            x, y = args
            nz = st.path.simp(ne(y, 0, st.path.bnd))
            if nz is True:
                return euclid(ex, st, x, y)[m == "rem_euclid"]
            return Alts([(nz, lambda s: euclid(ex, s, x, y)[m == "rem_euclid"]), (Not(nz), Panic("rem_euclid by zero"))])
        return h
    if m == "div_ceil" and not sg:
        def h(ex, st, fn, args):
            x, y = args
            nz = st.path.simp(ne(y, 0, st.path.bnd))

            def v(s):
                return neg(div(neg(x), y, s.path.bnd))
            if nz is True:
                return v(st)
            return Alts([(nz, v), (Not(nz), Panic("division by zero"))])
        return h
    if m in ("to_be_bytes", "to_le_bytes", "to_ne_bytes"):
        def h(ex, st, fn, args):
            x = args[0]
            if sg:
                x = mod(x, 1 << b, st.path.bnd)
            l = [mod(div(x, 1 << (8 * i), st.path.bnd), 256, st.path.bnd) for i in range(b // 8)]
            if m == "to_be_bytes":
                l.reverse()
            return Agg(0, tuple(l))
        return h
    if m in ("from_be_bytes", "from_le_bytes", "from_ne_bytes"):
        def h(ex, st, fn, args):
            f = list(args[0].f)
            if m != "from_be_bytes":
                f.reverse()
            return ex.wrap(st, pack(f), b, sg)
        return h
    if m == "leading_zeros":
        return lambda ex, st, fn, args: b - args[0].bit_length() if isinstance(args[0], int) and args[0] >= 0 else bitlen_alts(ex, st, args[0], b, lambda k: b - k)
    if m in ("ilog2",):
        return lambda ex, st, fn, args: args[0].bit_length() - 1 if isinstance(args[0], int) and args[0] > 0 else bitlen_alts(
            ex, st, args[0], b, lambda k: k - 1 if k else Panic("ilog2 of 0"))
    if m == "checked_ilog2":
        return lambda ex, st, fn, args: bitlen_alts(ex, st, args[0], b, lambda k: some(k - 1) if k else NONE)
    if m == "trailing_zeros":
        def h(ex, st, fn, args):
            x = args[0]
            if isinstance(x, int):
                return (x & -x).bit_length() - 1 if x else b
            bits = bits_of(x)
            if bits is not None:
                al = []
                none = True
                for i in sorted(bits):
                    al.append((And(none, ne(bits[i], 0)), i))
                    none = And(none, eq(bits[i], 0))
                al.append((none, b))
                return Alts(al)
            raise Unsupported("trailing_zeros")
        return h
    if m == "count_ones":
        def h(ex, st, fn, args):
            x = args[0]
            if isinstance(x, int):
                return bin(x & ((1 << b) - 1)).count("1")
            bits = bits_of(x)
            if bits is None:
                r = 0
                for i in range(b):
                    r = add(r, mod(div(x, 1 << i, st.path.bnd), 2, st.path.bnd))
                return r
            r = 0
            for v in bits.values():
                r = add(r, v)
            return r
        return h
    if m == "is_power_of_two":
        return lambda ex, st, fn, args: Or(*[eq(args[0], 1 << i, st.path.bnd) for i in range(b)])
    if m in ("swap_bytes",) or m in ("to_be", "to_le"):
        return _unsup("library")
    if m == "from_str_radix":
        return _unsup("library")
    if m in ("unwrap",):
        return None
    return _unsup("library")


def euclid(ex, st, x, y):
    """(quotient, remainder) with 0 <= r < |y|"""
    lo, hi = st.path.iv(y)
    if lo is not None and lo >= 0:
        q = div(x, y, st.path.bnd)
        return q, sub(x, mul(y, q)) if not isinstance(x, int) or not isinstance(y, int) else x % y
    if hi is not None and hi < 0:
        q, r = euclid(ex, st, x, neg(y))
        return neg(q), r
    raise NeedBranch(ge(y, 0))


def wrapped(ex, st, r, b, sg):
    """wrap with a case split when at most one wrap is possible"""
    lo, hi = rng(b, sg)
    a, c = st.path.iv(r)
    if a is not None and c is not None and a >= lo and c <= hi:
        return r
    if isinstance(r, int):
        return ex.wrap(st, r, b, sg)
    if not sg and a is not None and c is not None:
        if a >= 0 and c < 2 << b:
            return Alts([(le(r, hi, st.path.bnd), r), (gt(r, hi, st.path.bnd), sub(r, 1 << b))])
        if a >= -(1 << b) and c <= hi:
            return Alts([(ge(r, 0, st.path.bnd), r), (lt(r, 0, st.path.bnd), add(r, 1 << b))])
    return ex.wrap(st, r, b, sg)


def wrapped_now(ex, st, r, b, sg):
    x = wrapped(ex, st, r, b, sg)
    if isinstance(x, Alts):
        c = x.alts[0][0]
        raise NeedBranch(c)
    return x


# ---------------------------------------------------------------- big integers
def big_n(S):
    return int(BIGRE.match(S).group(2)) // 64


def big_to_int(S):
    b, sg = INTS[S]

    def h(ex, st, fn, args):
        x = args[0]
        if not isinstance(x, Big):
            if is_int(x):
                okc = fits(st, x, b, sg)
                return Alts([(okc, ok(x)), (Not(okc), err(UNIT))])
            raise Unsupported("big_to_int %r" % (x,))
        okc = fits(st, x.t, b, sg)
        return Alts([(okc, ok(x.t)), (Not(okc), err(Opaque("str", "integer overflow when casting")))])
    return h


def big_arg(x, n=None):
    if isinstance(x, Big):
        return x.t
    if is_int(x):
        return x
    raise Unsupported("big arg %r" % (x,))


def big_method(ex, fn, S, tr, m, n):
    N = big_n(S)
    MAXV = (1 << (64 * N)) - 1

    def val(ex, st, x):
        if isinstance(x, Ptr):
            x = ex.deref(st, x)
        return big_arg(x)

    def okc(st, r):
        return And(ge(r, 0, st.path.bnd), le(r, MAXV, st.path.bnd))

    if tr == "From":
        # From<unsigned/signed int> of construct_uint!; conversions between big types are repository code
        src = re.search(r"From<([^>]*)>", n)
        if src and src.group(1).split("::")[-1] in INTS:
            def h(ex, st, fn, args):
                x = args[0]
                c = ge(x, 0, st.path.bnd)
                return Alts([(c, Big(N, x)), (Not(c), Panic("negative into unsigned"))])
            return h
        return None
    if tr == "TryFrom":
        return None
    if tr == "Into" or tr == "TryInto":
        return None
    if tr in ("PartialEq", "PartialOrd", "Ord") and m in ("eq", "ne", "lt", "le", "gt", "ge", "cmp", "partial_cmp", "max", "min"):
        return cmp_method(m)
    if tr == "Clone":
        return lambda ex, st, fn, args: ex.deref(st, args[0])
    if tr == "Default":
        return lambda ex, st, fn, args: Big(N, 0)
    if tr in ("Display", "Debug", "LowerHex", "UpperHex"):
        return lambda ex, st, fn, args: ok(UNIT)
    if tr in ("ToString", "SpecToString"):
        return lambda ex, st, fn, args: Opaque("fmt", None)

    def arith(op, ex, st, x, y):
        if op == "add":
            return add(x, y)
        if op == "sub":
            return sub(x, y)
        if op == "mul":
            return mul(x, y)
        if op == "pow":
            return ipow(ex, st, x, y)
        raise Unsupported(op)

    def divlike(ex, st, x, y, wrapf, zero, isrem=False):
        nz = st.path.simp(ne(y, 0, st.path.bnd))

        def v(s):
            r = mod(x, y, s.path.bnd) if isrem else div(x, y, s.path.bnd)
            return wrapf(Big(N, r))
        if nz is True:
            return v(st)
        if nz is False:
            return zero
        return Alts([(nz, v), (Not(nz), zero)])

    opn = {"Add": "add", "Sub": "sub", "Mul": "mul", "AddAssign": "add", "SubAssign": "sub", "MulAssign": "mul",
           "Div": "div", "Rem": "rem", "DivAssign": "div", "RemAssign": "rem"}
    if tr in opn:
        op = opn[tr]
        assign = tr.endswith("Assign")

        def h(ex, st, fn, args):
            x, y = val(ex, st, args[0]), val(ex, st, args[1])
            ptr = args[0]

            def fin(v):
                return v
            if op in ("div", "rem"):
                if assign:
                    y2 = st.path.simp(ne(y, 0, st.path.bnd))
                    if y2 is not True:
                        raise NeedBranch(y2) if y2 is not False else Unsupported("div by zero")
                    r = Big(N, mod(x, y, st.path.bnd) if op == "rem" else div(x, y, st.path.bnd))
                    ex.store(st, ptr, r)
                    return UNIT
                return divlike(ex, st, x, y, lambda r: r, Panic("division by zero"), op == "rem")
            r = arith(op, ex, st, x, y)
            c = st.path.simp(okc(st, r))
            if assign:
                def put(s):
                    ex.store(s, ptr, Big(N, r))
                    return UNIT
                return Alts([(c, put), (Not(c), Panic("arithmetic operation overflow"))])
            return Alts([(c, Big(N, r)), (Not(c), Panic("arithmetic operation overflow"))])
        return h
    if tr in ("Shl", "Shr", "ShlAssign", "ShrAssign"):
        def h(ex, st, fn, args):
            x = val(ex, st, args[0])
            y = conc(ex, st, val(ex, st, args[1]))
            if y >= 64 * N:
                r = 0
            elif tr.startswith("Shl"):
                r = mod(mul(x, 1 << y), MAXV + 1, st.path.bnd)
            else:
                r = div(x, 1 << y, st.path.bnd)
            if tr.endswith("Assign"):
                ex.store(st, args[0], Big(N, r))
                return UNIT
            return Big(N, r)
        return h
    if tr in ("BitAnd", "BitOr", "BitXor"):
        return lambda ex, st, fn, args: Big(N, ex.bitop(st, tr, val(ex, st, args[0]), val(ex, st, args[1]), 64 * N, False))
    if tr == "Not":
        return lambda ex, st, fn, args: Big(N, sub(MAXV, val(ex, st, args[0])))
    if tr == "AsRef":
        return None
    if tr is not None:
        return None
    mm = re.match(r"^(checked|overflowing|saturating|wrapping)_(add|sub|mul|div|rem|pow|neg)$", m)
    if mm:
        mode, op = mm.group(1), mm.group(2)

        def h(ex, st, fn, args):
            x = val(ex, st, args[0])
            y = val(ex, st, args[1]) if len(args) > 1 else None
            if op in ("div", "rem"):
                return divlike(ex, st, x, y, (lambda r: some(r)) if mode == "checked" else (lambda r: r),
                               NONE if mode == "checked" else Panic("div by zero"), op == "rem")
            if op == "neg":
                r = neg(x)
            else:
                r = arith(op, ex, st, x, y)
            c = okc(st, r)
            if mode == "checked":
                return Alts([(c, some(Big(N, r))), (Not(c), NONE)])
            if mode == "saturating":
                return Alts([(c, Big(N, r)), (gt(r, MAXV), Big(N, MAXV)), (lt(r, 0), Big(N, 0))])
            c = st.path.simp(c)
            if c is True:
                return Agg(0, (Big(N, r), False)) if mode == "overflowing" else Big(N, r)
            w = Big(N, mod(r, MAXV + 1, st.path.bnd))
            if mode == "overflowing":
                return Alts([(c, Agg(0, (Big(N, r), False))), (Not(c), Agg(0, (w, True)))])
            return Alts([(c, Big(N, r)), (Not(c), w)])
        return h
    if m == "pow":
        def h(ex, st, fn, args):
            r = ipow(ex, st, val(ex, st, args[0]), val(ex, st, args[1]))
            c = okc(st, r)
            return Alts([(c, Big(N, r)), (Not(c), Panic("pow overflow"))])
        return h
    if m == "div_mod":
        def h(ex, st, fn, args):
            x, y = val(ex, st, args[0]), val(ex, st, args[1])
            nz = st.path.simp(ne(y, 0, st.path.bnd))
            f = lambda s: Agg(0, (Big(N, div(x, y, s.path.bnd)), Big(N, mod(x, y, s.path.bnd))))
            if nz is True:
                return f(st)
            return Alts([(nz, f), (Not(nz), Panic("division by zero"))])
        return h
    if m == "zero":
        return lambda ex, st, fn, args: Big(N, 0)
    if m == "one":
        return lambda ex, st, fn, args: Big(N, 1)
    if m in ("max_value", "MAX"):
        return lambda ex, st, fn, args: Big(N, MAXV)
    if m == "is_zero":
        return lambda ex, st, fn, args: eq(val(ex, st, args[0]), 0, st.path.bnd)
    if m in ("low_u64", "low_u128", "low_u32"):
        k = int(m[5:])
        return lambda ex, st, fn, args: mod(val(ex, st, args[0]), 1 << k, st.path.bnd)
    if m in ("as_u64", "as_u128", "as_usize", "as_u32"):
        k = 64 if m == "as_usize" else int(m[4:])

        def h(ex, st, fn, args):
            x = val(ex, st, args[0])
            c = le(x, (1 << k) - 1, st.path.bnd)
            return Alts([(c, x), (Not(c), Panic("Integer overflow when casting"))])
        return h
    if m == "bits":
        return lambda ex, st, fn, args: val(ex, st, args[0]).bit_length() if isinstance(val(ex, st, args[0]), int) else bitlen_alts(
            ex, st, val(ex, st, args[0]), 64 * N, lambda k: k)
    if m == "leading_zeros":
        return lambda ex, st, fn, args: 64 * N - val(ex, st, args[0]).bit_length() if isinstance(val(ex, st, args[0]), int) else bitlen_alts(
            ex, st, val(ex, st, args[0]), 64 * N, lambda k: 64 * N - k)
    if m == "bit":
        return lambda ex, st, fn, args: eq(mod(div(val(ex, st, args[0]), 1 << conc(ex, st, args[1]), st.path.bnd), 2, st.path.bnd), 1)
    if m in ("from_dec_str", "from_str_radix"):
        return _unsup("library")
    if m in ("from_big_endian", "from_little_endian"):
        def h(ex, st, fn, args):
            f = list(elems(ex, st, args[0]))
            if m == "from_little_endian":
                f.reverse()
            return Big(N, pack(f))
        return h
    return None


# ---------------------------------------------------------------- containers
def range_of(n, idx, ln):
    """(kind, start, end) from an index value"""
    if is_int(idx):
        return ("at", idx, None)
    if "RangeFull" in n and not idx.f:
        return ("rng", 0, ln)
    if re.search(r"RangeToInclusive<", n):
        return ("rng", 0, add(idx.f[0], 1))
    if re.search(r"RangeInclusive<", n):
        return ("rng", idx.f[0], add(idx.f[1], 1))
    if re.search(r"RangeFrom<", n):
        return ("rng", idx.f[0], ln)
    if re.search(r"RangeTo<", n):
        return ("rng", 0, idx.f[0])
    if re.search(r"Range<", n):
        return ("rng", idx.f[0], idx.f[1])
    raise Unsupported("index kind in " + n)


def do_index(ex, st, fn, base, idx, checked):
    """checked: return Option instead of panicking"""
    sl = as_slice(ex, st, base)
    if not isinstance(sl, Sl):
        raise Unsupported("index of opaque")
    k, a, b = range_of(fn["n"], idx, sl.n)
    if k == "at":
        if not isinstance(a, int):
            c = st.path.simp(And(ge(a, 0, st.path.bnd), lt(a, sl.n, st.path.bnd)))
            if c is False:
                return NONE if checked else Panic("index out of bounds")
            if c is not True:
                raise NeedBranch(c)
            a = conc(ex, st, a)
        if a < 0 or a >= sl.n:
            return NONE if checked else Panic("index out of bounds")
        r = Ptr(sl.a, sl.p + (sl.s + a,))
        return some(r) if checked else r
    a, b = conc(ex, st, a), conc(ex, st, b)
    if a > b or b > sl.n:
        return NONE if checked else Panic("slice index out of range")
    r = Sl(sl.a, sl.p, sl.s + a, b - a)
    return some(r) if checked else r


VECLIKE = {"Vec", "String", "slice", "str", "array"}


def set_range(ex, st, sl, vals):
    for i, v in enumerate(vals):
        ex.write(st, sl.a, sl.p + (sl.s + i,), v)


def upd(ex, st, p, f):
    v = ex.deref(st, p)
    if isinstance(v, Opaque):
        ex.store(st, p, Opaque("fmt", None))
        return
    ex.store(st, p, Seq(tuple(f(list(v.f)))))


def utf8_items(ex, st, f):
    for x in f:
        if isinstance(x, int):
            if x >= 128:
                raise Unsupported("non-ascii text")
        else:
            lo, hi = st.path.iv(x)
            if hi is None or hi >= 128:
                raise Unsupported("symbolic non-ascii text")
    return f


def extend_drive(ex, st, fn, vecptr, itv, ity, deref_items, is_string=False):
    def on_item(ex, st, acc, item):
        if deref_items and isinstance(item, (Ptr,)):
            item = ex.deref(st, item)
        if is_string and isinstance(item, (Sl, Seq, Opaque)):
            f = elems(ex, st, item) if isinstance(item, Sl) else item.f
            return ("acc", acc + tuple(f))
        return ("acc", acc + (item,))

    def on_end(ex, st, acc):
        if vecptr is None:
            return Seq(acc)
        v = ex.deref(st, vecptr)
        ex.store(st, vecptr, Seq(tuple(v.f) + acc))
        return UNIT
    return drive(ex, st, itv, ity, on_item, on_end, ())


def ty_is_ref(ex, tid):
    return ex.p.types[tid]["k"] == "ref"


def container_method(ex, fn, bn, S, tr, m, c):
    D = lambda st, p: ex.deref(st, p)
    n = fn["n"]
    targs = fn["targs"]
    isvec = S.endswith("vec::Vec")
    isstr = S.endswith("string::String")

    def F(f):
        return lambda ex, st, fn, args: f(ex, st, args)

    # ---- construction
    if (isvec or isstr) and tr is None:
        if m == "new":
            return F(lambda ex, st, a: Seq(()))
        if m in ("with_capacity", "with_capacity_in", "new_in"):
            return F(lambda ex, st, a: Seq(()))
        if m in ("reserve", "reserve_exact", "shrink_to_fit", "shrink_to"):
            return F(lambda ex, st, a: UNIT)
        if m == "capacity":
            return F(lambda ex, st, a: len(D(st, a[0]).f))
    if (isvec or isstr) and tr == "Default":
        return F(lambda ex, st, a: Seq(()))
    if m == "from_elem" and ("vec::from_elem" in bn or tr == "SpecFromElem"):
        return F(lambda ex, st, a: Seq((a[0],) * conc(ex, st, a[1])))
    if isvec and tr is None and m == "push":
        def h(ex, st, fn, a):
            upd(ex, st, a[0], lambda l: l + [a[1]])
            return UNIT
        return h
    if isstr and tr is None and m == "push":
        def h(ex, st, fn, a):
            upd(ex, st, a[0], lambda l: l + [a[1]])
            return UNIT
        return h
    if isstr and m == "push_str" or (isvec and m == "extend_from_slice"):
        def h(ex, st, fn, a):
            e = elems(ex, st, a[1])
            if isinstance(e, Opaque) or isinstance(D(st, a[0]), Opaque):
                ex.store(st, a[0], Opaque("fmt", None))
                return UNIT
            upd(ex, st, a[0], lambda l: l + list(e))
            return UNIT
        return h
    if isstr and tr in ("Add", "AddAssign"):
        def h(ex, st, fn, a):
            e = elems(ex, st, a[1])
            if tr == "Add":
                if isinstance(a[0], Opaque) or isinstance(e, Opaque):
                    return Opaque("fmt", None)
                return Seq(tuple(a[0].f) + tuple(e))
            upd(ex, st, a[0], lambda l: l + list(e))
            return UNIT
        return h
    if isvec and tr is None:
        if m == "append":
            def h(ex, st, fn, a):
                o = D(st, a[1]).f
                upd(ex, st, a[0], lambda l: l + list(o))
                ex.store(st, a[1], Seq(()))
                return UNIT
            return h
        if m == "pop":
            def h(ex, st, fn, a):
                f = D(st, a[0]).f
                if not f:
                    return NONE
                ex.store(st, a[0], Seq(f[:-1]))
                return some(f[-1])
            return h
        if m == "insert":
            def h(ex, st, fn, a):
                i = conc(ex, st, a[1])
                f = D(st, a[0]).f
                if i > len(f):
                    return Panic("insert index")
                ex.store(st, a[0], Seq(f[:i] + (a[2],) + f[i:]))
                return UNIT
            return h
        if m in ("remove", "swap_remove"):
            def h(ex, st, fn, a):
                f = D(st, a[0]).f
                i = a[1]
                if not isinstance(i, int):
                    cnd = st.path.simp(lt(i, len(f)))
                    if cnd is False:
                        return Panic("remove index")
                    if cnd is not True:
                        raise NeedBranch(cnd)
                    i = conc(ex, st, i)
                if i >= len(f):
                    return Panic("remove index")
                x = f[i]
                if m == "remove":
                    ex.store(st, a[0], Seq(f[:i] + f[i + 1:]))
                else:
                    g = list(f)
                    g[i] = g[-1]
                    g.pop()
                    ex.store(st, a[0], Seq(tuple(g)))
                return x
            return h
        if m == "truncate":
            def h(ex, st, fn, a):
                k = conc(ex, st, a[1])
                upd(ex, st, a[0], lambda l: l[:k])
                return UNIT
            return h
        if m == "split_off":
            def h(ex, st, fn, a):
                k = conc(ex, st, a[1])
                f = D(st, a[0]).f
                if k > len(f):
                    return Panic("split_off")
                ex.store(st, a[0], Seq(f[:k]))
                return Seq(f[k:])
            return h
        if m == "resize":
            def h(ex, st, fn, a):
                k = conc(ex, st, a[1])
                upd(ex, st, a[0], lambda l: (l + [a[2]] * max(0, k - len(l)))[:k])
                return UNIT
            return h
        if m == "drain":
            def h(ex, st, fn, a):
                f = D(st, a[0]).f
                k, lo, hi = range_of(n, a[1], len(f))
                lo, hi = conc(ex, st, lo), conc(ex, st, hi)
                if lo > hi or hi > len(f):
                    return Panic("drain range")
                ex.store(st, a[0], Seq(f[:lo] + f[hi:]))
                return mk_vals(f[lo:hi])
            return h
        if m in ("retain", "retain_mut"):
            def h(ex, st, fn, a):
                return retain(ex, st, fn, a)
            return h
        if m in ("into_boxed_slice", "leak"):
            return F(lambda ex, st, a: as_slice(ex, st, ex.new_ptr(st, a[0])))
        if m in ("dedup",):
            return _unsup("library")
    if (isvec or isstr) and m == "clear" and tr is None:
        def h(ex, st, fn, a):
            ex.store(st, a[0], Seq(()))
            return UNIT
        return h
    if (isvec or isstr or c in ("slice", "str", "array")) and tr is None and m in ("len", "is_empty"):
        def h(ex, st, fn, a):
            s = as_slice(ex, st, a[0])
            if not isinstance(s, Sl):
                if m == "is_empty":
                    return False
                raise Unsupported("len of opaque")
            return s.n if m == "len" else s.n == 0
        return h
    if (isvec or isstr or c == "array") and m in ("as_slice", "as_mut_slice", "as_str", "as_bytes", "as_mut_str", "as_mut_vec") and tr is None:
        return F(lambda ex, st, a: as_slice(ex, st, a[0]))
    if (isvec or isstr) and tr in ("Deref", "DerefMut", "AsRef", "AsMut", "Borrow", "BorrowMut"):
        if isvec and tr == "AsRef" and "AsRef<std::vec::Vec" in n:
            return F(lambda ex, st, a: a[0])
        return F(lambda ex, st, a: as_slice(ex, st, a[0]))
    if c in ("str", "slice", "array") and tr in ("AsRef", "AsMut", "Borrow", "BorrowMut", "Deref"):
        return F(lambda ex, st, a: as_slice(ex, st, a[0]))
    if c == "str" and tr is None and m in ("as_bytes", "as_str", "trim") and m != "trim":
        return F(lambda ex, st, a: a[0])
    if isstr and m in ("into_bytes", "into_boxed_str") and tr is None:
        return F(lambda ex, st, a: a[0])
    if isstr and m in ("from_utf8", "from_utf8_lossy") and tr is None or bn.endswith("str::from_utf8") or bn.endswith("str::converts::from_utf8"):
        def h(ex, st, fn, a):
            v = a[0]
            vv = D(st, v) if isinstance(v, (Sl, Ptr)) else v
            if isinstance(vv, Opaque):
                return ok(v)
            f = vv.f
            asc = True
            for x in f:
                asc = And(asc, lt(x, 128, st.path.bnd))
            asc = st.path.simp(asc)
            if asc is True:
                return ok(v)
            ex.notes.add("from_utf8: non-ASCII bytes treated as invalid text")
            return Alts([(asc, ok(v)), (Not(asc), err(Opaque("utf8err")))])
        return h
    if isstr and m in ("from_utf8_unchecked",) or bn.endswith("str::from_utf8_unchecked") or bn.endswith("converts::from_utf8_unchecked"):
        return F(lambda ex, st, a: a[0])
    # ---- conversions between string-like
    if tr == "ToOwned" and m == "to_owned" or (c == "slice" and tr is None and m in ("to_vec", "to_owned", "into_vec", "to_vec_in")) or tr == "ConvertVec" or (
            bn.endswith("slice::hack::to_vec") or bn.endswith("slice::hack::into_vec")):
        if m == "to_owned" and c not in ("str", "slice", "String", "Vec"):
            return F(lambda ex, st, a: D(st, a[0]))

        def h(ex, st, fn, a):
            e = elems(ex, st, a[0])
            return e if isinstance(e, Opaque) else Seq(tuple(e))
        return h
    if c == "str" and tr is None and m in ("to_string", "into_string", "to_owned"):
        return F(lambda ex, st, a: str_copy(ex, st, a[0]))
    if (isstr or isvec) and tr == "From":
        def h(ex, st, fn, a):
            v = a[0]
            if isinstance(v, (Sl, Ptr)):
                v = D(st, v)
            if isinstance(v, (Seq, Opaque)):
                return v
            if isinstance(v, Agg):
                return Seq(v.f)
            if is_int(v):
                return Seq((v,))
            raise Unsupported("container From %r" % (v,))
        return h
    if isstr and tr == "FromStr":
        return F(lambda ex, st, a: ok(str_copy(ex, st, a[0])))
    # ---- equality, ordering
    if tr in ("PartialEq", "PartialOrd", "Ord", "SlicePartialEq", "SliceOrd", "SlicePartialOrd") and (
            isvec or isstr or c in ("str", "slice", "array")):
        if m in ("eq", "ne", "lt", "le", "gt", "ge", "cmp", "partial_cmp", "max", "min"):
            return cmp_method(m)
    if tr == "PartialEq" and c == "ref" and m in ("eq", "ne") and re.search(r"(str|String|\[u8\])", n):
        return cmp_method(m)
    if tr == "SliceContains" or (c == "slice" and m == "contains" and tr is None):
        def h(ex, st, fn, a):
            r = False
            x = D(st, a[0 if tr == "SliceContains" else 1])
            for y in elems(ex, st, a[1 if tr == "SliceContains" else 0]):
                r = Or(r, val_eq(ex, st, x, y))
            return r
        return h
    if (c in ("slice", "str")) and m in ("starts_with", "ends_with") and tr is None:
        def h(ex, st, fn, a):
            x = elems(ex, st, a[0])
            if is_int(a[1]):
                y = (a[1],)
            else:
                y = elems(ex, st, a[1])
            if isinstance(x, Opaque) or isinstance(y, Opaque):
                raise Unsupported("starts_with on opaque")
            if len(y) > len(x):
                return False
            z = x[:len(y)] if m == "starts_with" else x[len(x) - len(y):]
            return val_eq(ex, st, Seq(tuple(z)), Seq(tuple(y)))
        return h
    # ---- indexing
    if tr in ("Index", "IndexMut") and (isvec or isstr or c in ("slice", "array", "str")):
        def h(ex, st, fn, a):
            return do_index(ex, st, fn, a[0], a[1], False)
        return h
    if tr == "SliceIndex":
        def h(ex, st, fn, a):
            if m in ("index", "index_mut"):
                return do_index(ex, st, fn, a[1], a[0], False)
            if m in ("get", "get_mut"):
                return do_index(ex, st, fn, a[1], a[0], True)
            raise Unsupported(fn["n"])
        return h
    if (c in ("slice", "str", "array") or isvec) and m in ("get", "get_mut") and tr is None:
        return lambda ex, st, fn, a: do_index(ex, st, fn, a[0], a[1], True)
    if c == "slice" and m in ("get_unchecked", "get_unchecked_mut") and tr is None:
        return lambda ex, st, fn, a: do_index(ex, st, fn, a[0], a[1], False)
    if c in ("slice",) and tr is None and m in ("first", "last", "first_mut", "last_mut"):
        def h(ex, st, fn, a):
            s = as_slice(ex, st, a[0])
            if s.n == 0:
                return NONE
            return some(Ptr(s.a, s.p + (s.s + (0 if m.startswith("first") else s.n - 1),)))
        return h
    if c == "slice" and tr is None and m in ("split_first", "split_last"):
        def h(ex, st, fn, a):
            s = as_slice(ex, st, a[0])
            if s.n == 0:
                return NONE
            if m == "split_first":
                return some(Agg(0, (Ptr(s.a, s.p + (s.s,)), Sl(s.a, s.p, s.s + 1, s.n - 1))))
            return some(Agg(0, (Ptr(s.a, s.p + (s.s + s.n - 1,)), Sl(s.a, s.p, s.s, s.n - 1))))
        return h
    if c in ("slice", "str") and tr is None and m in ("split_at", "split_at_mut", "split_at_checked"):
        def h(ex, st, fn, a):
            s = as_slice(ex, st, a[0])
            k = conc(ex, st, a[1])
            if k > s.n:
                return NONE if m.endswith("checked") else Panic("split_at")
            r = Agg(0, (Sl(s.a, s.p, s.s, k), Sl(s.a, s.p, s.s + k, s.n - k)))
            return some(r) if m.endswith("checked") else r
        return h
    if c == "slice" and tr is None and m in ("copy_from_slice", "clone_from_slice") or bn.endswith("slice::copy_from_slice_impl"):
        def h(ex, st, fn, a):
            s = as_slice(ex, st, a[0])
            e = elems(ex, st, a[1])
            if len(e) != s.n:
                return Panic("copy_from_slice length mismatch")
            set_range(ex, st, s, e)
            return UNIT
        return h
    if c == "slice" and tr is None and m in ("fill", "reverse", "swap"):
        def h(ex, st, fn, a):
            s = as_slice(ex, st, a[0])
            e = list(elems(ex, st, s))
            if m == "fill":
                e = [a[1]] * s.n
            elif m == "reverse":
                e.reverse()
            else:
                i, j = conc(ex, st, a[1]), conc(ex, st, a[2])
                if i >= s.n or j >= s.n:
                    return Panic("swap index")
                e[i], e[j] = e[j], e[i]
            set_range(ex, st, s, e)
            return UNIT
        return h
    if c == "slice" and tr is None and m in ("concat", "join") or tr in ("Concat", "Join"):
        def h(ex, st, fn, a):
            parts = [elems(ex, st, x) if isinstance(x, (Sl, Ptr)) else flat(ex, x) for x in elems(ex, st, a[0])]
            if any(isinstance(x, Opaque) for x in parts):
                return Opaque("fmt", None)
            out = ()
            sep = ()
            if m == "join":
                sep = elems(ex, st, a[1]) if isinstance(a[1], (Sl, Ptr)) else (a[1],)
            for i, x in enumerate(parts):
                out += (tuple(sep) if i else ()) + tuple(x)
            return Seq(out)
        return h
    if c == "slice" and tr is None and m in ("sort", "sort_unstable"):
        def h(ex, st, fn, a):
            s = as_slice(ex, st, a[0])
            e = list(elems(ex, st, s))
            # insertion sort with explicit branching
            for i in range(1, len(e)):
                for j in range(i, 0, -1):
                    l, q = val_cmp(ex, st, e[j], e[j - 1])
                    l = st.path.simp(l)
                    if l is True:
                        e[j], e[j - 1] = e[j - 1], e[j]
                    elif l is False:
                        break
                    else:
                        raise NeedBranch(l)
            set_range(ex, st, s, e)
            return UNIT
        return h
    # ---- iterators
    if (c in ("slice", "array") or isvec) and tr is None and m in ("iter", "iter_mut"):
        return F(lambda ex, st, a: mk_slice_iter(ex, st, a[0]))
    if c == "slice" and tr is None and m in ("chunks", "chunks_exact", "windows"):
        def h(ex, st, fn, a):
            s = as_slice(ex, st, a[0])
            k = conc(ex, st, a[1])
            if m == "windows":
                l = [Sl(s.a, s.p, s.s + i, k) for i in range(0, s.n - k + 1)]
            else:
                l = [Sl(s.a, s.p, s.s + i, min(k, s.n - i)) for i in range(0, s.n, k)]
                if m == "chunks_exact":
                    l = [x for x in l if x.n == k]
            return mk_vals(l)
        return h
    if c == "str" and tr is None and m in ("bytes", "chars"):
        return F(lambda ex, st, a: mk_vals(utf8_items(ex, st, elems(ex, st, a[0])) if m == "chars" else elems(ex, st, a[0])))
    if tr == "IntoIterator" and m == "into_iter":
        if isvec or c == "array" and not n.startswith("&"):
            return F(lambda ex, st, a: mk_vals(a[0].f) if isinstance(a[0], (Seq, Agg)) else mk_slice_iter(ex, st, a[0]))
        if c == "ref" and re.search(r"(&mut |&)(std::vec::Vec|\[)", n):
            return F(lambda ex, st, a: mk_slice_iter(ex, st, a[0]))
        return None
    isit = S.endswith(("slice::Iter", "slice::IterMut", "vec::IntoIter", "array::IntoIter", "str::Chars", "str::Bytes", "vec::Drain",
                       "slice::Chunks", "slice::ChunksExact", "slice::Windows"))
    if isit:
        if tr == "Iterator":
            if m == "next":
                return F(lambda ex, st, a: it_next(ex, st, a[0]))
            if m == "size_hint":
                return F(lambda ex, st, a: Agg(0, (it_len(D(st, a[0])), some(it_len(D(st, a[0]))))))
            if m == "count":
                return F(lambda ex, st, a: it_len(a[0]))
            if m == "last":
                def h(ex, st, fn, a):
                    p = ex.new_ptr(st, a[0])
                    return it_next_back(ex, st, p)
                return h
            if m in ("nth", "advance_by"):
                def h(ex, st, fn, a):
                    k = conc(ex, st, a[1])
                    it = D(st, a[0])
                    ln = it_len(it)
                    sk = min(k, ln)
                    ex.store(st, a[0], It(it.kind, it.d[:-2] + (it.d[-2] + sk, it.d[-1])))
                    if m == "nth":
                        return it_next(ex, st, a[0])
                    return ok(UNIT) if sk == k else err(k - sk)
                return h
            if m == "fold" or m == "for_each":
                def h(ex, st, fn, a):
                    return fold_it(ex, st, fn, a, m)
                return h
            if m in ("position", "rposition"):
                return lambda ex, st, fn, a: position_it(ex, st, fn, a, m)
            if m in ("any", "all", "find", "find_map"):
                return lambda ex, st, fn, a: search_it(ex, st, fn, a, m)
            if m == "try_fold":
                return lambda ex, st, fn, a: try_fold_it(ex, st, fn, a, m)
            if m == "__iterator_get_unchecked":
                def h(ex, st, fn, a):
                    it = D(st, a[0])
                    i = conc(ex, st, a[1])
                    if it.kind == "slice":
                        return Ptr(it.d[0], it.d[1] + (it.d[2] + i,))
                    return it.d[0][it.d[-2] + i]
                return h
            # provided methods (map, filter, find, ...) run from MIR
            return None
        if tr == "DoubleEndedIterator":
            if m == "next_back":
                return F(lambda ex, st, a: it_next_back(ex, st, a[0]))
            if m == "rfold":
                return lambda ex, st, fn, a: fold_it(ex, st, fn, a, "rfold")
            if m == "try_rfold":
                return lambda ex, st, fn, a: try_fold_it(ex, st, fn, a, m)
            return None
        if tr == "ExactSizeIterator" and m == "len":
            return F(lambda ex, st, a: it_len(D(st, a[0])))
        if tr == "TrustedRandomAccessNoCoerce" and m == "size":
            return F(lambda ex, st, a: it_len(D(st, a[0])))
        if tr is None and m in ("as_slice", "as_str"):
            def h(ex, st, fn, a):
                it = D(st, a[0])
                if it.kind == "slice":
                    return Sl(it.d[0], it.d[1], it.d[2], it.d[3] - it.d[2])
                p = ex.new_ptr(st, Seq(it.d[0]))
                return Sl(p.a, (), it.d[-2], it.d[-1] - it.d[-2])
            return h
        if tr == "Clone":
            return F(lambda ex, st, a: D(st, a[0]))
        if tr is None:
            return _unsup("library")
        return None
    if tr == "FromIterator" and (isvec or isstr):
        def h(ex, st, fn, a):
            it = a[0]
            # the impl's last type argument is the iterator
            cand = [t for t in reversed(targs)]
            ity = cand[0]
            return extend_drive(ex, st, fn, None, it, ity, False, isstr)
        return h
    if tr == "Extend" and (isvec or isstr) and m == "extend":
        def h(ex, st, fn, a):
            ity = targs[-1]
            it = a[1]
            if isinstance(it, (Ptr, Sl)):
                it = mk_slice_iter(ex, st, it)
            dr = "Extend<&" in n
            return extend_drive(ex, st, fn, a[0], it, ity, dr, isstr)
        return h
    if isvec and m in ("extend_trusted", "extend_desugared", "spec_extend"):
        return _unsup("library")
    # ---- Box
    if S.endswith("boxed::Box") or bn.startswith(("std::boxed::", "alloc::boxed::")):
        if m in ("new", "box_new", "pin"):
            return F(lambda ex, st, a: ex.new_ptr(st, a[0]))
        if m in ("new_uninit", "box_new_uninit", "new_uninit_in"):
            return F(lambda ex, st, a: ex.new_ptr(st, UNINIT))
        if m == "box_assume_init_into_vec_unsafe":
            def h(ex, st, fn, a):
                v = D(st, a[0])
                if isinstance(v, Agg) and len(v.f) == 2 and v.f[0] is UNINIT:
                    v = v.f[1].f[0]
                return Seq(v.f)
            return h
        if m in ("assume_init", "write", "into_inner", "into_raw", "from_raw", "leak", "as_ref", "as_mut", "deref", "deref_mut"):
            if m == "write":
                def h(ex, st, fn, a):
                    ex.store(st, a[0], a[1])
                    return a[0]
                return h
            return F(lambda ex, st, a: a[0])
        if tr == "From":
            return F(lambda ex, st, a: ex.new_ptr(st, a[0]) if not isinstance(a[0], (Sl, Ptr)) else a[0])
        if tr == "Iterator" and m in ("next", "size_hint", "nth"):
            def h(ex, st, fn, a):
                # &mut Box<I> -> I
                b = D(st, a[0])
                return boxed_iter(ex, st, b, m, fn)
            return h
    return None


def boxed_iter(ex, st, b, m, fn):
    if isinstance(b, Dyn):
        p, ty = b.ptr, b.ty
    else:
        p = b
        ty = None
    v = ex.deref(st, p)
    if isinstance(v, It):
        if m == "next":
            return it_next(ex, st, p)
        if m == "size_hint":
            return Agg(0, (it_len(v), some(it_len(v))))
    if isinstance(v, (Dyn, Ptr)):
        return boxed_iter(ex, st, v, m, fn)
    if ty is None:
        ty = fn["targs"][0]
    inst = ex.p.iter_next.get(ty)
    if m == "next" and inst is not None:
        return Replace(inst, [p])
    if m == "size_hint":
        return Agg(0, (0, NONE))
    raise Unsupported("boxed iterator %s over %s" % (m, ex.p.types[ty]["n"]))


def call_fn(ex, st, fn, f, fargs):
    """(inst, args) for calling closure value f of the generic function fn with tuple fargs"""
    # find the FnMut/FnOnce instance for the closure type among the program's types
    raise Unsupported("call_fn")


def closure_target(ex, tid, ref):
    """instance to call for a closure/fndef type; returns (inst, needs_ref)"""
    t = ex.p.types[tid]
    if t["k"] == "closure":
        inst = t["once"]
        return inst
    if t["k"] == "fndef":
        return t["inst"]
    raise Unsupported("closure type " + t["n"])


def call_closure_req(ex, st, tid, fval, args):
    """build (inst, args) calling closure `fval` of type tid with positional args.
    `once` instance takes the closure by value; FnMut state changes are preserved by passing a pointer when the body expects it."""
    t = ex.p.types[tid]
    if t["k"] == "fndef":
        return t["inst"], list(args)
    if t["k"] == "ref":
        return call_closure_req(ex, st, t["elem"], ex.deref(st, fval) if isinstance(fval, Ptr) else fval, args)
    if t["k"] == "closure":
        inst = t["once"]
        fn = ex.p.fns[inst]
        # a FnOnce shim (by value) or the closure body itself
        body = ex.closure_body(inst)
        if body is not None:
            b, byref = body
            f = fval
            if byref and not isinstance(fval, Ptr):
                f = ex.new_ptr(st, fval)
            return b, [f] + list(args)
        return inst, [fval, Agg(0, tuple(args))]
    if t["k"] == "fnptr":
        return fval.inst, list(args)
    raise Unsupported("call closure of type " + t["n"])


def closure_ty(ex, fn):
    for tid in reversed(fn["targs"]):
        t = ex.p.types[tid]
        if t["k"] in ("closure", "fndef", "fnptr") or (t["k"] == "ref" and ex.p.types[t["elem"]]["k"] in ("closure",)):
            return tid
    raise Unsupported("no closure type in " + fn["n"])


def fold_it(ex, st, fn, a, m):
    itv = a[0]
    if m == "for_each":
        init, f = UNIT, a[1]
    else:
        init, f = a[1], a[2]
    tid = closure_ty(ex, fn)
    fp = ex.new_ptr(st, f)
    box = ex.new_ptr(st, itv)

    def step(ex, st, pst, lastv):
        acc = lastv if pst == "run" else init
        nx = it_next_back(ex, st, box) if m == "rfold" else it_next(ex, st, box)
        if nx.v == 0:
            return acc
        args = [nx.f[0]] if m == "for_each" else [acc, nx.f[0]]
        inst, ar = call_closure_req(ex, st, tid, fp, args)
        return CallReq(inst, ar, "run")
    return PyCall(step, "start")


def search_it(ex, st, fn, a, m):
    it = a[0]
    tid = closure_ty(ex, fn)
    fp = ex.new_ptr(st, a[1])

    def go(ex, st):
        nx = it_next(ex, st, it)
        if nx.v == 0:
            return {"any": False, "all": True}.get(m, NONE)
        item = nx.f[0]
        arg = ex.new_ptr(st, item) if m == "find" else item
        inst, ar = call_closure_req(ex, st, tid, fp, [arg])
        return CallReq(inst, ar, (item,))

    def step(ex, st, pst, lastv):
        if pst is None:
            return go(ex, st)
        if m == "find_map":
            return go(ex, st) if lastv.v == 0 else lastv
        stop = {"any": True, "all": False}.get(m, some(pst[0]))
        c = lastv if m != "all" else (not lastv if isinstance(lastv, bool) else Not(lastv))
        if isinstance(c, bool):
            return stop if c else go(ex, st)
        return Alts([(c, stop), (Not(c), lambda s: go(ex, s))])
    return PyCall(step, None)


def try_fold_it(ex, st, fn, a, m):
    it = a[0]
    tid = closure_ty(ex, fn)
    fp = ex.new_ptr(st, a[2])
    rt = None
    for t in reversed(fn["targs"]):
        n = ex.p.types[t].get("adt", "")
        if n.endswith(("ControlFlow", "Result", "Option")):
            rt = n
            break
    if rt is None:
        raise Unsupported("try_fold result type in " + fn["n"])
    cont = 1 if rt.endswith("Option") else 0

    def go(ex, st, acc):
        nx = it_next_back(ex, st, it) if m == "try_rfold" else it_next(ex, st, it)
        if nx.v == 0:
            return Agg(cont, (acc,))
        inst, ar = call_closure_req(ex, st, tid, fp, [acc, nx.f[0]])
        return CallReq(inst, ar, "run")

    def step(ex, st, pst, lastv):
        if pst == "start":
            return go(ex, st, a[1])
        if lastv.v == cont:
            return go(ex, st, lastv.f[0])
        return lastv
    return PyCall(step, "start")


def position_it(ex, st, fn, a, m):
    it = a[0]
    tid = closure_ty(ex, fn)
    fp = ex.new_ptr(st, a[1])
    ln = it_len(ex.deref(st, it))

    def go(ex, st, i):
        nx = it_next_back(ex, st, it) if m == "rposition" else it_next(ex, st, it)
        if nx.v == 0:
            return NONE
        inst, ar = call_closure_req(ex, st, tid, fp, [nx.f[0]])
        return CallReq(inst, ar, i + 1)

    def step(ex, st, i, lastv):
        if lastv is None:
            return go(ex, st, 0)
        r = some(ln - i) if m == "rposition" else some(i - 1)
        if isinstance(lastv, bool):
            return r if lastv else go(ex, st, i)
        return Alts([(lastv, r), (Not(lastv), lambda s: go(ex, s, i))])
    return PyCall(step, 0)


def retain(ex, st, fn, a):
    vec = a[0]
    tid = closure_ty(ex, fn)
    fp = ex.new_ptr(st, a[1])
    f = ex.deref(st, vec).f
    src = ex.new_ptr(st, Seq(f))

    def step(ex, st, pst, lastv):
        i, kept = pst

        def go(st, i, kept):
            if i == len(f):
                cur = ex.deref(st, src).f
                ex.store(st, vec, Seq(tuple(cur[j] for j in kept)))
                return UNIT
            inst, ar = call_closure_req(ex, st, tid, fp, [Ptr(src.a, (i,))])
            return CallReq(inst, ar, (i + 1, kept))
        if lastv is None:
            return go(st, i, kept)
        k2 = kept + (i - 1,)
        if isinstance(lastv, bool):
            return go(st, i, k2 if lastv else kept)
        return Alts([(lastv, lambda s: go(s, i, k2)), (Not(lastv), lambda s: go(s, i, kept))])
    return PyCall(step, (0, ()))


# ---------------------------------------------------------------- misc std
def misc_method(ex, fn, bn, S, tr, m, c):
    D = lambda st, p: ex.deref(st, p)

    def F(f):
        return lambda ex, st, fn, args: f(ex, st, args)
    if bn.startswith(("std::mem::", "core::mem::")) and tr is None:
        if m == "swap":
            def h(ex, st, fn, a):
                x, y = D(st, a[0]), D(st, a[1])
                ex.store(st, a[0], y)
                ex.store(st, a[1], x)
                return UNIT
            return h
        if m == "replace":
            def h(ex, st, fn, a):
                x = D(st, a[0])
                ex.store(st, a[0], a[1])
                return x
            return h
        if m in ("drop", "forget"):
            return F(lambda ex, st, a: UNIT)
        if m in ("size_of", "align_of", "size_of_val"):
            return F(lambda ex, st, a: (ex.p.types[fn["targs"][0]]["lay"] or {}).get("size", 0))
        if m == "take":
            return None
        if m == "discriminant":
            return F(lambda ex, st, a: D(st, a[0]).v)
        if "MaybeUninit" in bn or "ManuallyDrop" in bn:
            if m == "uninit":
                return F(lambda ex, st, a: UNINIT)
            if m in ("new", "assume_init", "into_inner", "as_mut_ptr", "as_ptr", "assume_init_ref", "assume_init_mut", "deref", "deref_mut"):
                return F(lambda ex, st, a: a[0])
            if m == "write":
                def h(ex, st, fn, a):
                    ex.store(st, a[0], a[1])
                    return a[0]
                return h
    if ("MaybeUninit" in S or "ManuallyDrop" in S) and tr in ("Deref", "DerefMut"):
        return F(lambda ex, st, a: a[0])
    if bn.startswith(("std::ptr::", "core::ptr::")):
        if m == "read":
            return F(lambda ex, st, a: D(st, a[0]))
        if m == "write":
            def h(ex, st, fn, a):
                ex.store(st, a[0], a[1])
                return UNIT
            return h
        if m in ("drop_in_place",):
            return F(lambda ex, st, a: UNIT)
        if m in ("cast", "as_ptr", "as_mut_ptr", "cast_mut", "cast_const", "as_ref", "as_mut", "new_unchecked", "from", "from_ref", "from_mut"):
            return F(lambda ex, st, a: a[0])
        if m == "is_null":
            return F(lambda ex, st, a: False)
    if bn.startswith(("std::hint::", "core::hint::")):
        if m in ("must_use", "black_box"):
            return F(lambda ex, st, a: a[0])
        if m == "unreachable_unchecked":
            return F(lambda ex, st, a: Panic("unreachable_unchecked"))
        return F(lambda ex, st, a: UNIT)
    if "ub_checks" in bn:
        return F(lambda ex, st, a: False if m == "check_language_ub" else True)
    # arrays from slices
    if c == "array" and tr in ("TryFrom", "TryInto") or (c == "array" and tr == "From"):
        def h(ex, st, fn, a):
            mm = re.search(r"\[[^\[\]]*; (\d+)\]", fn["n"])
            k = int(mm.group(1))
            v = a[0]
            e = elems(ex, st, v) if isinstance(v, (Sl, Ptr)) else flat(ex, v)
            if isinstance(e, Opaque):
                raise Unsupported("array from opaque")
            if len(e) != k:
                return err(Opaque("TryFromSliceError")) if tr != "From" else Panic("array from")
            if "&'" in fn["n"].split(" for ")[-1][:4] or re.search(r"for &", fn["n"]):
                raise Unsupported("array ref try_from")
            return ok(Agg(0, tuple(e))) if tr != "From" else Agg(0, tuple(e))
        return h
    if c == "array" and tr is None and m == "map":
        return _unsup("library")
    if c == "array" and tr is None and m in ("as_slice", "each_ref"):
        return F(lambda ex, st, a: as_slice(ex, st, a[0]))
    if bn.endswith("array::from_fn"):
        def h(ex, st, fn, a):
            mm = [t for t in fn["targs"]]
            raise Unsupported("array::from_fn")
        return h
    if c == "str" and tr is None and m in ("parse",):
        return _unsup("library")
    if c == "str" and m == "to_lowercase":
        return _unsup("library")
    if bn in ("std::cmp::min", "std::cmp::max", "core::cmp::min", "core::cmp::max", "std::cmp::Ord::min", "std::cmp::Ord::max"):
        def h(ex, st, fn, a):
            if is_int(a[0]) and is_int(a[1]):
                g = ge(a[0], a[1], st.path.bnd)
                return Alts([(g, a[0] if m == "max" else a[1]), (Not(g), a[1] if m == "max" else a[0])])
            l, e = val_cmp(ex, st, a[0], a[1])
            return Alts([(l, a[1] if m == "max" else a[0]), (Not(l), a[0] if m == "max" else (a[1])),])
        return h
    if bn.startswith("std::alloc::") or bn.startswith("alloc::alloc") or bn.startswith("alloc::raw_vec"):
        return _unsup("library")
    if S.endswith("Wrapping"):
        return None
    return None


# ---------------------------------------------------------------- intrinsics
def intrinsic(ex, st, fn, args):
    m = fn["intr"] or fn["n"].rsplit("::", 1)[-1]
    t0 = ex.p.types[fn["targs"][0]] if fn["targs"] else None
    bn = st.path.bnd
    if m in ("cold_path", "assert_inhabited", "assert_zero_valid", "assert_mem_uninitialized_valid", "assume", "prefetch_read_data"):
        if m == "assume":
            if not st.path.assume(args[0]):
                return Panic("assume false")
        return UNIT
    if m in ("likely", "unlikely", "black_box", "forget"):
        return args[0] if args else UNIT
    if m in ("is_val_statically_known", "ub_checks", "contract_checks", "overflow_checks"):
        return m == "overflow_checks"
    if m in ("needs_drop",):
        return False
    if m in ("size_of", "min_align_of", "align_of", "pref_align_of", "size_of_val", "min_align_of_val"):
        return t0["lay"]["size"] if t0 and t0["lay"] else 0
    if m == "discriminant_value":
        v = ex.deref(st, args[0])
        if t0["k"] == "adt":
            return t0["variants"][v.v]["discr"]
        return 0
    if m == "abort":
        return Panic("abort")
    if m == "unreachable":
        return Panic("unreachable intrinsic")
    if m == "caller_location":
        return Opaque("location")
    if m == "type_name":
        return ex.new_str(st, t0["n"])
    if m == "type_id":
        return fn["targs"][0]
    if m == "transmute" or m == "transmute_unchecked":
        return ex.transmute(st, args[0], fn["targs"][0], fn["targs"][1])
    if m in ("read_via_copy", "volatile_load", "unaligned_volatile_load"):
        return ex.deref(st, args[0])
    if m in ("write_via_move", "volatile_store"):
        ex.store(st, args[0], args[1])
        return UNIT
    if m in ("typed_swap_nonoverlapping",):
        x, y = ex.deref(st, args[0]), ex.deref(st, args[1])
        ex.store(st, args[0], y)
        ex.store(st, args[1], x)
        return UNIT
    if m == "three_way_compare":
        return cmp_alts(lt(args[0], args[1], bn), eq(args[0], args[1], bn))
    if t0 is not None and t0["k"] == "int":
        b, sg = t0["bits"], t0["signed"]
        S = ("i" if sg else "u") + str(b)
        mm = {"wrapping_add": "wrapping_add", "wrapping_sub": "wrapping_sub", "wrapping_mul": "wrapping_mul", "saturating_add": "saturating_add",
              "saturating_sub": "saturating_sub", "unchecked_add": "unchecked_add", "unchecked_sub": "unchecked_sub",
              "unchecked_mul": "unchecked_mul", "ctpop": "count_ones", "ctlz": "leading_zeros", "ctlz_nonzero": "leading_zeros",
              "cttz": "trailing_zeros", "cttz_nonzero": "trailing_zeros", "unchecked_div": "wrapping_div", "unchecked_rem": "wrapping_rem",
              "exact_div": "wrapping_div", "unchecked_shl": "wrapping_shl", "unchecked_shr": "wrapping_shr"}.get(m)
        if mm:
            return int_method(S, mm)(ex, st, fn, args)
        if m in ("add_with_overflow", "sub_with_overflow", "mul_with_overflow"):
            return int_method(S, "overflowing_" + m[:3])(ex, st, fn, args)
        if m in ("integer_max",):
            return rng(b, sg)[1]
        if m in ("integer_min",):
            return rng(b, sg)[0]
    if m in ("ptr_metadata",):
        return args[0].n if isinstance(args[0], Sl) else UNIT
    if m == "aggregate_raw_ptr":
        return args[0]
    if m == "select_unpredictable":
        c = args[0]
        if isinstance(c, bool):
            return args[1] if c else args[2]
        return Alts([(c, args[1]), (Not(c), args[2])])
    if m in ("compare_bytes", "raw_eq"):
        return val_eq(ex, st, ex.deref(st, args[0]), ex.deref(st, args[1]))
    raise Unsupported("intrinsic " + m)


# ---------------------------------------------------------------- host: storage, api, serde
def host_method(ex, fn, bn, S, tr, m, c):
    def F(f):
        return lambda ex, st, fn, args: f(ex, st, args)
    if bn in ("cosmwasm_std::to_binary", "cosmwasm_std::to_json_binary"):
        def h(ex, st, fn, a):
            return ok(Agg(0, (Opaque("ser", (fn["targs"][0], ex.snapshot(st, ex.deref(st, a[0])))),)))
        return h
    if bn in ("cosmwasm_std::to_vec", "cosmwasm_std::to_json_vec") or bn.endswith("::to_vec") and bn.startswith("cosmwasm_std::serde"):
        def h(ex, st, fn, a):
            return ok(Opaque("ser", (fn["targs"][0], ex.snapshot(st, ex.deref(st, a[0])))))
        return h
    if bn in ("cosmwasm_std::from_slice", "cosmwasm_std::from_json", "cosmwasm_std::from_binary"):
        def h(ex, st, fn, a):
            v = a[0]
            while isinstance(v, (Ptr, Sl)):
                v = ex.deref(st, v)
            while isinstance(v, Agg) and len(v.f) == 1:
                v = v.f[0]
            if isinstance(v, Opaque) and v.tag == "ser":
                want = ex.p.types[fn["targs"][0]]["n"]
                have = ex.p.types[v.data[0]]["n"]
                if norm_ty(want) == norm_ty(have):
                    return ok(v.data[1])
                return ex.reinterpret(st, v, fn["targs"][0])
            raise Unsupported("from_slice of %r" % (v,))
        return h
    if bn == "cosmwasm_std::Binary::to_base64":
        return F(lambda ex, st, a: Opaque("base64", ex.deref(st, a[0])))
    if bn == "cw2::set_contract_version":
        return F(lambda ex, st, a: ok(UNIT))
    return None


def norm_ty(n):
    return n.replace("&", "").replace("'_ ", "").strip()


def virtual_call(ex, st, fn, args, atys):
    n = base_name(fn["n"])
    S, tr, m = split_name(n)
    if "cosmwasm_std::Storage" in n or (tr and tr.endswith("Storage")):
        return ex.storage_call(st, m, args)
    if "cosmwasm_std::Api" in n:
        if m == "addr_validate":
            e = elems(ex, st, args[1])
            v = e if isinstance(e, Opaque) else Seq(tuple(e))
            if ex.on_addr_validate:
                return ex.on_addr_validate(ex, st, v)
            return ok(Agg(0, (v,)))
        raise Unsupported("api." + m)
    if tr and last(tr) == "Iterator":
        d = args[0]
        if isinstance(d, Ptr):
            d = ex.deref(st, d)
        return boxed_iter(ex, st, d, m, fn)
    # generic virtual dispatch on closures / trait objects is not modelled
    raise Unsupported("virtual call " + fn["n"])
