"""Hash-consed integer polynomials over atoms, and boolean terms.

An integer value is a python int or a T (polynomial with integer coefficients over atoms).
Atoms are variables, floor divisions, if-then-else, bit operations and uninterpreted functions.
A boolean value is a python bool or a B.
"""
from math import gcd

NEG = None  # -inf
POS = None  # +inf


class Atom:
    __slots__ = ("id", "kind", "args", "lo", "hi", "name", "deps")
    table = {}
    lst = []

    def __repr__(self):
        if self.kind == "var":
            return self.name
        return "%s(%s)" % (self.kind, ",".join(map(repr, self.args)))


def _mkatom(kind, args, lo, hi, name=None):
    key = (kind, args, name)
    a = Atom.table.get(key)
    if a is not None:
        return a
    a = Atom()
    a.id = len(Atom.lst)
    a.kind = kind
    a.args = args
    a.lo = lo
    a.hi = hi
    a.name = name
    Atom.table[key] = a
    Atom.lst.append(a)
    return a


class T:
    """polynomial: m = tuple of (monomial tuple of atom ids, coef), sorted; never constant"""
    __slots__ = ("m", "h", "iv", "key", "z")
    table = {}

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        out = []
        for mono, c in self.m:
            s = "*".join(repr(Atom.lst[i]) for i in mono)
            out.append(s if c == 1 and s else ("%d" % c if not s else "%d*%s" % (c, s)))
        return "(" + " + ".join(out) + ")"


def _mkT(d):
    """d: dict mono->coef"""
    items = [(k, v) for k, v in d.items() if v != 0]
    if not items:
        return 0
    if len(items) == 1 and items[0][0] == ():
        return items[0][1]
    items.sort()
    m = tuple(items)
    t = T.table.get(m)
    if t is None:
        t = T()
        t.m = m
        t.h = hash(m)
        t.iv = None
        t.key = None
        t.z = None
        T.table[m] = t
    return t


def atomT(a):
    return _mkT({(a.id,): 1})


def var(name, lo, hi):
    a = _mkatom("var", (), lo, hi, name)
    if lo == hi and lo is not None:
        return lo
    return atomT(a)


def is_c(x):
    return isinstance(x, int)


def poly(x):
    if isinstance(x, int):
        return ((((), x),) if x else ())
    return x.m


def add(a, b):
    if isinstance(a, int):
        if isinstance(b, int):
            return a + b
        if a == 0:
            return b
    elif isinstance(b, int) and b == 0:
        return a
    d = dict(poly(a))
    for k, v in poly(b):
        d[k] = d.get(k, 0) + v
    return _mkT(d)


def neg(a):
    if isinstance(a, int):
        return -a
    return _mkT({k: -v for k, v in a.m})


def sub(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a - b
    if a is b:
        return 0
    d = dict(poly(a))
    for k, v in poly(b):
        d[k] = d.get(k, 0) - v
    return _mkT(d)


def mul(a, b):
    if isinstance(a, int):
        if isinstance(b, int):
            return a * b
        a, b = b, a
    if isinstance(b, int):
        if b == 0:
            return 0
        if b == 1:
            return a
        return _mkT({k: v * b for k, v in a.m})
    d = {}
    for k1, v1 in a.m:
        for k2, v2 in b.m:
            k = tuple(sorted(k1 + k2))
            d[k] = d.get(k, 0) + v1 * v2
    return _mkT(d)


# ---------------------------------------------------------------- intervals
KNOWN = {}  # global known bounds: normalized key poly (no const) -> (lo,hi)


def split_const(t):
    """(key poly with zero constant and positive leading coef, sign, const): t = sign*key + const"""
    if t.key is not None:
        return t.key
    m = t.m
    c = 0
    if m[0][0] == ():
        c = m[0][1]
        m = m[1:]
    s = 1
    if m[0][1] < 0:
        s = -1
    g = 0
    for _, v in m:
        g = gcd(g, v)
    k = _mkT({a: v * s // g for a, v in m})
    t.key = (k, s * g, c)
    return t.key


def imul(a, b):
    (al, ah), (bl, bh) = a, b
    if al is not None and al >= 0 and bl is not None and bl >= 0:
        return (al * bl, None if ah is None or bh is None else ah * bh)
    if None in (al, ah, bl, bh):
        return (None, None)
    c = (al * bl, al * bh, ah * bl, ah * bh)
    return (min(c), max(c))


def iscale(iv, c):
    lo, hi = iv
    if c >= 0:
        return (None if lo is None else lo * c, None if hi is None else hi * c)
    return (None if hi is None else hi * c, None if lo is None else lo * c)


def iadd(a, b):
    return (None if a[0] is None or b[0] is None else a[0] + b[0],
            None if a[1] is None or b[1] is None else a[1] + b[1])


def imeet(a, b):
    lo = a[0] if b[0] is None else (b[0] if a[0] is None else max(a[0], b[0]))
    hi = a[1] if b[1] is None else (b[1] if a[1] is None else min(a[1], b[1]))
    return (lo, hi)


def interval(t, bnd=None):
    """interval of t; bnd: optional dict key-poly -> (lo,hi) of path-specific refinements"""
    if isinstance(t, int):
        return (t, t)
    if bnd is None and t.iv is not None:
        return t.iv
    lo, hi = 0, 0
    for mono, c in t.m:
        iv = (1, 1)
        i = 0
        n = len(mono)
        while i < n:
            j = i
            while j < n and mono[j] == mono[i]:
                j += 1
            ai = atom_iv(mono[i], bnd)
            p = j - i
            if p == 1:
                iv = imul(iv, ai)
            else:
                if ai[0] is not None and ai[0] >= 0:
                    pw = (ai[0] ** p, None if ai[1] is None else ai[1] ** p)
                elif p % 2 == 0 and ai[0] is not None and ai[1] is not None:
                    pw = (0, max(abs(ai[0]), abs(ai[1])) ** p)
                else:
                    pw = (1, 1)
                    for _ in range(p):
                        pw = imul(pw, ai)
                iv = imul(iv, pw)
            i = j
        if bnd is not None and n > 1:
            k = T.table.get(((mono, 1),))
            if k is not None:
                r = bnd.get(k)
                if r is not None:
                    iv = imeet(iv, r)
        iv = iscale(iv, c)
        lo = None if lo is None or iv[0] is None else lo + iv[0]
        hi = None if hi is None or iv[1] is None else hi + iv[1]
        if lo is None and hi is None:
            break
    res = (lo, hi)
    k, s, c = split_const(t)
    r = KNOWN.get(k)
    if r is not None:
        res = imeet(res, iadd(iscale(r, s), (c, c)))
    if bnd is not None:
        r = bnd.get(k)
        if r is not None:
            res = imeet(res, iadd(iscale(r, s), (c, c)))
    else:
        t.iv = res
    return res


_ivmemo = None      # atom -> interval, during one outermost atom_iv (shared sub-terms would be visited exponentially often)


def atom_iv(i, bnd):
    global _ivmemo
    a = Atom.lst[i]
    r = (a.lo, a.hi)
    if bnd is None:
        return r
    if a.kind != "div":
        return _atom_iv(i, a, r, bnd)
    if _ivmemo is None:
        _ivmemo = {}
        try:
            return _atom_iv(i, a, r, bnd)
        finally:
            _ivmemo = None
    m = _ivmemo.get(i)
    if m is None:
        m = _ivmemo[i] = _atom_iv(i, a, r, bnd)
    return m


def _atom_iv(i, a, r, bnd):
    k = T.table.get((((i,), 1),))
    if k is not None:
        b = bnd.get(k)
        if b is not None:
            r = imeet(r, b)
    if a.kind == "div":
        ni = interval(a.args[0], bnd)
        di = interval(a.args[1], bnd)
        r = imeet(r, idiv(ni, di))
    return r


def idiv(n, d):
    lo = hi = None
    if d[0] is not None and d[0] >= 1:
        if n[0] is not None:
            if n[0] >= 0:
                lo = 0 if d[1] is None else n[0] // d[1]
            else:
                lo = n[0] // d[0]
        if n[1] is not None:
            if n[1] >= 0:
                hi = n[1] // d[0]
            else:
                hi = -1 if d[1] is None else n[1] // d[1]
    return (lo, hi)


def set_known(t, lo, hi):
    if isinstance(t, int):
        return
    k, s, c = split_const(t)
    l, h = (lo - c if lo is not None else None), (hi - c if hi is not None else None)
    if s < 0:
        l, h = (None if h is None else -h, None if l is None else -l)
        s = -s
    l = None if l is None else -((-l) // s)
    h = None if h is None else h // s
    old = KNOWN.get(k)
    new = (l, h) if old is None else imeet(old, (l, h))
    if new != old:
        KNOWN[k] = new
        k.iv = None
        t.iv = None


# ---------------------------------------------------------------- division
def div(n, d, bnd=None):
    """floor(n/d), d > 0 must hold on the path"""
    if isinstance(d, int):
        assert d > 0, "div by non-positive constant"
        if d == 1:
            return n
        if isinstance(n, int):
            return n // d
        q, r = {}, {}
        for k, v in n.m:
            if v % d == 0:
                q[k] = v // d
            elif k == ():
                # constant part: split
                q[k] = v // d
                r[k] = v % d
            else:
                r[k] = v
        if q and any(q.values()):
            qq = _mkT(q)
            rr = _mkT(r)
            return add(qq, div(rr, d, bnd))
        iv = interval(n, bnd)
        if iv[0] is not None and iv[1] is not None and iv[0] // d == iv[1] // d:
            return iv[0] // d
        # common factor
        g = d
        for k, v in n.m:
            g = gcd(g, v if k != () else 0) if k != () else g
        if g > 1:
            # floor((g*A + c)/(g*d')) = floor((A + floor(c/g))/d')
            nn = _mkT({k: (v // g) for k, v in n.m})
            return div(nn, d // g, bnd)
    else:
        if isinstance(n, int) and n == 0:
            return 0
        if n is d:
            return 1
        iv = interval(n, bnd)
        di = interval(d, bnd)
        if iv[0] is not None and iv[0] >= 0 and iv[1] is not None and di[0] is not None and iv[1] < di[0]:
            return 0
        # common integer content: floor((g*A + c)/(g*D)) = floor((A + floor(c/g))/D)
        g = 0
        for _, v in d.m:
            g = gcd(g, v)
        for k, v in poly(n):
            if k != ():
                g = gcd(g, v)
        if g > 1:
            nn = _mkT({k: (v // g) for k, v in poly(n)})
            dd = _mkT({k: (v // g) for k, v in d.m})
            return div(nn, dd, bnd)
        # exact factor: every monomial of n divisible by single-monomial d
        if len(d.m) == 1:
            dm, dc = d.m[0]
            q, r = {}, {}
            for k, v in poly(n):
                if v % dc == 0:
                    kk = list(k)
                    ok = True
                    for a in dm:
                        if a in kk:
                            kk.remove(a)
                        else:
                            ok = False
                            break
                    if ok:
                        q[tuple(kk)] = v // dc
                        continue
                r[k] = v
            if q:
                return add(_mkT(q), div(_mkT(r), d, bnd))
        # symbolic multiple: n = k*d + r for an integer constant k
        dl, dlc = d.m[-1]
        for k, v in poly(n):
            if k == dl and v % dlc == 0:
                kq = v // dlc
                r = sub(n, mul(d, kq))
                if len(poly(r)) < len(poly(n)) - (len(d.m) - 1):
                    return add(kq, div(r, d, bnd))
    # nested floor: floor((floor(a/b) + R)/d) = floor((a + R*b)/(b*d)), b>0
    if not isinstance(n, int):
        dv = None
        for k, v in n.m:
            if len(k) == 1 and Atom.lst[k[0]].kind == "div":
                if v == 1 and dv is None:
                    dv = k[0]
                else:
                    dv = -1
            elif any(Atom.lst[x].kind == "div" for x in k):
                dv = -1
        if dv is not None and dv >= 0:
            a, b = Atom.lst[dv].args
            R = sub(n, atomT(Atom.lst[dv]))
            return div(add(a, mul(R, b)), mul(b, d), bnd)
    iv = interval(n)
    di = interval(d)
    lo, hi = idiv(iv, di) if (di[0] is not None and di[0] >= 1) else (
        0 if (iv[0] is not None and iv[0] >= 0) else None,
        iv[1] if (iv[0] is not None and iv[0] >= 0) else None)
    a = _mkatom("div", (n, d), lo, hi)
    return atomT(a)


def mod(n, d, bnd=None):
    if isinstance(n, int) and isinstance(d, int):
        return n % d
    iv = interval(n, bnd)
    di = interval(d, bnd)
    if iv[0] is not None and iv[0] >= 0 and iv[1] is not None and di[0] is not None and iv[1] < di[0]:
        return n
    q = div(n, d, bnd)
    r = sub(n, mul(d, q))
    if bnd is not None and q is not div(n, d):
        return r          # simplified with bounds of this path only: the range is no global fact
    if isinstance(d, int):
        set_known(r, 0, d - 1)
    elif di == interval(d):
        set_known(r, 0, di[1] - 1 if di[1] is not None else None)
    return r


# ---------------------------------------------------------------- booleans
class B:
    __slots__ = ("k", "a", "h", "z", "id")
    table = {}
    n = 0

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        if self.k == "ge":
            return "(%r >= 0)" % (self.a[0],)
        if self.k in ("eq", "ne"):
            return "(%r %s 0)" % (self.a[0], "==" if self.k == "eq" else "!=")
        return "%s%r" % (self.k, self.a)


def _mkB(k, a):
    key = (k, a)
    b = B.table.get(key)
    if b is None:
        b = B()
        b.k = k
        b.a = a
        b.h = hash(key)
        b.z = None
        b.id = B.n
        B.n += 1
        B.table[key] = b
    return b


def bvar(name):
    return eq(var(name, 0, 1), 1)


def ge0(t, bnd=None):
    if isinstance(t, int):
        return t >= 0
    iv = interval(t, bnd)
    if iv[0] is not None and iv[0] >= 0:
        return True
    if iv[1] is not None and iv[1] < 0:
        return False
    g = 0
    c = 0
    for k, v in t.m:
        if k == ():
            c = v
        else:
            g = gcd(g, v)
    if g > 1:
        t = _mkT({k: (v // g if k != () else c // g) for k, v in t.m})
        if c and () not in dict(t.m) and c // g != 0:
            pass
    return _mkB("ge", (t,))


def eq0(t, bnd=None):
    if isinstance(t, int):
        return t == 0
    iv = interval(t, bnd)
    if (iv[0] is not None and iv[0] > 0) or (iv[1] is not None and iv[1] < 0):
        return False
    if iv[0] == 0 and iv[1] == 0:
        return True
    g = 0
    c = 0
    for k, v in t.m:
        if k == ():
            c = v
        else:
            g = gcd(g, v)
    if g > 1:
        if c % g:
            return False
        t = _mkT({k: v // g for k, v in t.m})
    # sign normalise
    for k, v in t.m:
        if k != ():
            if v < 0:
                t = neg(t)
            break
    return _mkB("eq", (t,))


def ge(a, b, bnd=None):
    return ge0(sub(a, b), bnd)


def le(a, b, bnd=None):
    return ge0(sub(b, a), bnd)


def gt(a, b, bnd=None):
    return ge0(sub(sub(a, b), 1), bnd)


def lt(a, b, bnd=None):
    return ge0(sub(sub(b, a), 1), bnd)


def eq(a, b, bnd=None):
    return eq0(sub(a, b), bnd)


def ne(a, b, bnd=None):
    return Not(eq(a, b, bnd))


def Not(b):
    if isinstance(b, bool):
        return not b
    if b.k == "ge":
        return ge0(sub(neg(b.a[0]), 1))
    if b.k == "eq":
        return _mkB("ne", b.a)
    if b.k == "ne":
        return _mkB("eq", b.a)
    if b.k == "not":
        return b.a[0]
    if b.k == "and":
        return Or(*[Not(x) for x in b.a])
    if b.k == "or":
        return And(*[Not(x) for x in b.a])
    return _mkB("not", (b,))


def And(*xs):
    out = []
    seen = set()
    for x in xs:
        if x is True:
            continue
        if x is False:
            return False
        for y in (x.a if x.k == "and" else (x,)):
            if y not in seen:
                seen.add(y)
                out.append(y)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    for y in out:
        if Not(y) in seen if y.k in ("ge", "eq", "ne", "not") else False:
            return False
    return _mkB("and", tuple(sorted(out, key=lambda b: b.id)))


def Or(*xs):
    out = []
    seen = set()
    for x in xs:
        if x is False:
            continue
        if x is True:
            return True
        for y in (x.a if x.k == "or" else (x,)):
            if y not in seen:
                seen.add(y)
                out.append(y)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    for y in out:
        if y.k in ("ge", "eq", "ne", "not") and Not(y) in seen:
            return True
    return _mkB("or", tuple(sorted(out, key=lambda b: b.id)))


def Implies(a, b):
    return Or(Not(a), b)


def Iff(a, b):
    if isinstance(a, bool):
        return b if a else Not(b)
    if isinstance(b, bool):
        return a if b else Not(a)
    if a is b:
        return True
    return And(Or(Not(a), b), Or(a, Not(b)))


def ite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    if a is b or (isinstance(a, int) and isinstance(b, int) and a == b):
        return a
    ia, ib = interval(a), interval(b)
    lo = None if ia[0] is None or ib[0] is None else min(ia[0], ib[0])
    hi = None if ia[1] is None or ib[1] is None else max(ia[1], ib[1])
    return atomT(_mkatom("ite", (c, a, b), lo, hi))


def b2i(b):
    if isinstance(b, bool):
        return int(b)
    if b.k == "eq" and len(b.a[0].m) == 2:
        # eq(var01, 1) -> var
        m = dict(b.a[0].m)
        ks = [k for k in m if k != ()]
        if len(ks) == 1 and len(ks[0]) == 1:
            a = Atom.lst[ks[0][0]]
            if a.lo == 0 and a.hi == 1 and abs(m[ks[0]]) == 1 and m.get((), 0) == -m[ks[0]]:
                return atomT(a)
    return ite(b, 1, 0)


def uf(name, args, lo, hi):
    return atomT(_mkatom("uf", tuple(args), lo, hi, name))


# ---------------------------------------------------------------- traversal / evaluation
def atoms_of(x, acc=None):
    """all atom ids reachable from a T/B/int/bool"""
    if acc is None:
        acc = set()
    st = [x]
    seenb = set()
    while st:
        y = st.pop()
        if isinstance(y, T):
            for mono, _ in y.m:
                for i in mono:
                    if i not in acc:
                        acc.add(i)
                        st.extend(Atom.lst[i].args)
        elif isinstance(y, B):
            if y not in seenb:
                seenb.add(y)
                st.extend(y.a)
    return acc


class EvalError(Exception):
    pass


def evaluate(x, env, ufs=None, cache=None):
    """evaluate term under env: name -> int"""
    if cache is None:
        cache = {}
    if isinstance(x, (int, bool)):
        return x
    r = cache.get(x)
    if r is not None:
        return r
    if isinstance(x, T):
        s = 0
        for mono, c in x.m:
            p = c
            for i in mono:
                p *= eval_atom(Atom.lst[i], env, ufs, cache)
                if p == 0:
                    break
            s += p
        cache[x] = s
        return s
    if x.k == "ge":
        r = evaluate(x.a[0], env, ufs, cache) >= 0
    elif x.k == "eq":
        r = evaluate(x.a[0], env, ufs, cache) == 0
    elif x.k == "ne":
        r = evaluate(x.a[0], env, ufs, cache) != 0
    elif x.k == "and":
        r = all(evaluate(y, env, ufs, cache) for y in x.a)
    elif x.k == "or":
        r = any(evaluate(y, env, ufs, cache) for y in x.a)
    elif x.k == "not":
        r = not evaluate(x.a[0], env, ufs, cache)
    else:
        raise EvalError(x.k)
    cache[x] = r
    return r


def eval_atom(a, env, ufs, cache):
    key = ("a", a.id)
    r = cache.get(key)
    if r is not None:
        return r
    if a.kind == "var":
        if a.name not in env:
            raise EvalError("no value for " + a.name)
        r = env[a.name]
    elif a.kind == "div":
        d = evaluate(a.args[1], env, ufs, cache)
        if d == 0:
            raise EvalError("div0")
        r = evaluate(a.args[0], env, ufs, cache) // d
    elif a.kind == "ite":
        r = evaluate(a.args[1] if evaluate(a.args[0], env, ufs, cache) else a.args[2], env, ufs, cache)
    elif a.kind in ("band", "bor", "bxor"):
        x = evaluate(a.args[0], env, ufs, cache)
        y = evaluate(a.args[1], env, ufs, cache)
        r = {"band": x & y, "bor": x | y, "bxor": x ^ y}[a.kind]
    elif a.kind == "uf":
        if ufs is None or a.name not in ufs:
            raise EvalError("uf " + a.name)
        r = ufs[a.name](*[evaluate(z, env, ufs, cache) for z in a.args])
    else:
        raise EvalError(a.kind)
    cache[key] = r
    return r
