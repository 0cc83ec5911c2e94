from lp import *


def panicked(o):
    return isinstance(o, tuple) and o[:1] == ("panic",)


def bl(s):
    return list(s.encode()) if isinstance(s, str) else list(s)


def seq_lt(a, b):
    a, b = bl(a), bl(b)
    r = len(a) < len(b)
    for x, y in reversed(list(zip(a, b))):
        r = Or(lt(x, y), And(eq(x, y), r))
    return r


def key_eq(k, x, y, fee, ts):
    k = k[1]
    return And(seq_eq(k[0], x), seq_eq(k[1], y), eq(k[2], fee), eq(k[3], ts))


def new_post(inp, out):
    a, b, fee, ts = inp
    if panicked(out):
        return [("making a pool key never fails unexpectedly", False)]
    k1, k2, d = out
    same = seq_eq(a, b)
    g = [("a pair of equal tokens is refused, any other accepted, in either order", same if k1 is None else Not(same)), ("both orders agree", (k1 is None) == (k2 is None))]
    if k1 is None or k2 is None:
        return g
    l = seq_lt(a, b)
    g.append(("tokens are sorted", Or(And(l, key_eq(k1, a, b, fee, ts)), And(Not(l), key_eq(k1, b, a, fee, ts)))))
    g.append(("both orders give the same pool", x_eq(list(map(list_, k1[1])), list(map(list_, k2[1])))))
    g.append(("a pool key decodes to itself", x_eq(list(map(list_, k1[1])), list(map(list_, d[1]))) if d is not None else False))
    return g


def list_(v):
    return bl(v) if isinstance(v, (str, list, tuple)) else v


def eq_post(inp, out):
    (x1, y1, f1, t1, i1, c1, n1, x2, y2, f2, t2, i2, c2, n2) = inp
    if panicked(out):
        return [("storage keys can be made", False)]
    p = And(seq_eq(x1, x2), seq_eq(y1, y2), eq(f1, f2), eq(t1, t2))
    g = []
    for r, want, nm in ((out[0], p, "pools"), (out[1], And(p, eq(i1, i2)), "ticks"), (out[2], And(p, eq(c1, c2)), "tick chunks"), (out[3], And(seq_eq(x1, x2), eq(n1, n2)), "positions")):
        g.append(("different %s never share a storage key" % nm, x_eq(r, want) if isinstance(want, bool) else Iff(r, want) if not isinstance(r, bool) else (want if r else Not(want))))
    return g


def member(fee, ts, tf, tt):
    return Or(*[And(eq(fee, a), eq(ts, b)) for a, b in zip(tf, tt)]) if tf else False


def create_post(c):
    def post(inp, out):
        (tf, tt, has, ef, et, a, b, fee, ts, p, tick, nanos, admin) = inp
        if panicked(out):
            return [("creating a pool never fails unexpectedly", False)]
        r, new, old, rev, pf = out
        reg = member(fee, ts, tf, tt)
        same = seq_eq(a, b)
        mx = MAX_TICK // ts * ts
        valid = tick % ts == 0 and -mx <= tick <= mx
        inr = False
        if valid:
            inr = And(ge(p, price(c, tick)), lt(p, price(c, tick + ts))) if tick + ts <= MAX_TICK else eq(p, price(c, mx))
        dup = And(eq(ef, fee), eq(et, ts)) if has else False
        good = And(reg, Not(same), valid, inr, Not(dup))
        OLD = (5, 6, 7, 8, 9, 10, 11, 12, 13)
        g = []
        if has:
            g.append(("an existing pool is never overwritten", And(x_eq(old[1][0], OLD), seq_eq(old[1][1], "old")) if old is not None else False))
        g.append(("settings are untouched", eq(pf, 77)))
        if r[0] != "ok":
            g.append(("a pool of a registered tier at a price in the tick's interval can be created once", Not(good)))
            if not has:
                g.append(("a refused pool does not exist", new is None))
            return g
        g.append(("pools are created only for registered tiers, distinct tokens, once, with tick and price matching", good))
        g.append(("no funds move", len(r[1]) == 0))
        g.append(("only the canonical order exists", x_eq(rev, False)))
        if new is None:
            return g + [("the pool is stored", False)]
        q, rc = new[1]
        ms = div(nanos, 10 ** 6)
        g.append(("a new pool is empty, at the given price, owned by the admin as fee receiver", And(eq(q[0], 0), eq(q[1], p), eq(q[2], tick), *[eq(q[k], 0) for k in (3, 4, 5, 6)], eq(q[7], ms), eq(q[8], ms), seq_eq(rc, admin))))
        return g
    return post


def check(c):
    lens = [(1, 1), (2, 2), (1, 2), (2, 1), (3, 3)] + ([(3, 2), (2, 4), (4, 4), (0, 1)] if c.thorough else [])
    tk = [(10, 0), (10, -10), (10, 5), (1, -221818), (1, 221818), (1, 221817), (100, 221800), (100, -221800), (100, 221900), (100, 221700), (7, 14), (10, -221820)]
    if c.thorough:
        tk += [(ts, t * ts) for ts in (1, 2, 5, 10, 50, 100) for t in (-100, -1, 1, 700)]
    c.bounds += ["token names of %s symbolic letters; every fee, tick spacing, tick, chunk and position index in storage keys" % (lens,),
                 "pool creation: (spacing, initial tick) %s, every price, time, fee; two registered tiers of any fee and spacing; an existing pool of the pair with any tier or none" % (tk,)]
    tasks = []
    for la, lb in lens:
        def t(c, la=la, lb=lb):
            c.scenario("pool key %d/%d" % (la, lb), "root_poolkey", [sbytes("a", la), sbytes("b", lb), ivar("fee", 0, U64), ivar("ts", 0, U16)], new_post, ignore_panics=False)
        tasks.append(t)
    for l1, l2 in [((2, 2), (2, 2)), ((1, 2), (2, 1)), ((2, 1), (2, 2)), ((1, 1), (3, 1)), ((1, 3), (2, 2)), ((1, 1), (5, 1)), ((6, 1), (2, 5))]:
        def t(c, l1=l1, l2=l2):
            v = []
            for k, l in ((1, l1), (2, l2)):
                v += [sbytes("x%d" % k, l[0]), sbytes("y%d" % k, l[1]), ivar("f%d" % k, 0, U64), ivar("t%d" % k, 0, U16), ivar("i%d" % k, -MAX_TICK, MAX_TICK), ivar("c%d" % k, 0, U16), ivar("n%d" % k, 0, U32)]
            c.scenario("storage keys %s %s" % (l1, l2), "root_keys_eq", v, eq_post, ignore_panics=False)
        tasks.append(t)
    for j, (ts, tick) in enumerate(tk):
        for has in ((False, True) if j < 3 or c.thorough else (j % 2 == 0,)):
            def t(c, ts=ts, tick=tick, has=has, j=j):
                la, lb = [(2, 2), (1, 2), (2, 1)][j % 3]
                inp = [[ivar("f%d" % i, 0, U64) for i in range(2)], [ivar("t%d" % i, 1, 100) for i in range(2)], has, ivar("ef", 0, U64), ivar("et", 1, 100), sbytes("a", la), sbytes("b", lb),
                       ivar("fee", 0, U64), ts, ivar("p", 0, U128), tick, ivar("nanos", 0, U64), sbytes("adm", 2)]
                ps = c.scenario("create pool ts=%d tick=%d existing=%s" % (ts, tick, has), "root_create_pool", inp, create_post(c), ignore_panics=False)
                if tick % ts == 0 and abs(tick) <= MAX_TICK // ts * ts:
                    c.reachable("created", ps, lambda o: o[0][0] == "ok")
            tasks.append(t)
    for kind in (0, 1):
        def t(c, kind=kind):
            x, y, f, ts = sbytes("x", 3), sbytes("y", 3), ivar("f", 0, 10 ** 12 - 1), ivar("ts", 1, 100)
            c.scenario("no pool, no %s" % ("position", "swap")[kind], "root_no_pool", [kind, x, y, f, ts],
                       lambda i, o: [("positions and swaps need an existing pool", And(seq_eq(i[1], "axc"), seq_eq(i[2], "byc"), eq(i[3], 100), eq(i[4], 10)))] if o is True else [])
        tasks.append(t)
    c.par(tasks)


if __name__ == "__main__":
    main("C11", check)
