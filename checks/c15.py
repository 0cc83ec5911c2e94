from lp import *

KEY = ("axn", "byc", 6 * 10 ** 9, 10)


def panicked(o):
    return isinstance(o, tuple) and o[:1] == ("panic",)


def norm(v):
    if isinstance(v, str):
        return list(v.encode())
    if isinstance(v, (list, tuple)):
        return [norm(x) for x in v]
    return v


def same(a, b):
    return x_eq(norm(a), norm(b))


def page(items, off, lim, out):
    """out is items[off : off + lim]"""
    n, m = len(items), len(out)
    alts = []
    for o in range(n - m + 1):
        # m items starting at o; fewer than lim only at the end
        c = [eq(off, o) if m else True, ge(lim, m), *[same(out[k], items[o + k]) for k in range(m)]]
        if m == 0:
            alts.append(Or(ge(off, n), eq(lim, 0)))
            break
        c.append(True if o + m == n else eq(lim, m))
        alts.append(And(*c))
    return Or(*alts) if alts else False


def pos(liq, i):
    return (KEY, (liq, -10 * (i + 1), 10, 1, 2, 3, 4, 5, []))


def tid(who, i):
    return list(who.encode()) + [0, 0, 0, i]


def positions_post(inp, out):
    mine, theirs, hl, lim, ho, off, idx = inp
    if panicked(out):
        return [("listing positions never fails", False)]
    lim, off = (lim if hl else 100), (off if ho else 0)
    a, t, n, p = out
    want = [pos(l, i) for i, l in enumerate(mine)]
    g = [("a page of positions holds exactly the account's positions from the offset on", page(want, off, lim, a[1]) if a is not None else False),
         ("a page of tokens holds exactly the account's token ids from the offset on", page([tid("me", i) for i in range(len(mine))], off, lim, t[1]) if t is not None else False),
         ("the position count is exact", eq(n[1], len(mine)) if n is not None else False)]
    if p is None:
        g.append(("every position can be looked up", ge(idx, len(mine))))
    else:
        g.append(("a position lookup returns that position", Or(*[And(eq(idx, i), same(p[1], w)) for i, w in enumerate(want)])))
    return g


def lex_lt(a, b):
    r = len(a) < len(b)
    for x, y in reversed(list(zip(a, b))):
        r = Or(lt(x, y), And(eq(x, y), r))
    return r


def sorted_page(items, after, lim, out):
    """items: (key, value) in ascending key order; out = values after `after` (exclusive), at most lim"""
    n, m = len(items), len(out)
    alts = []
    for o in range(n + 1):                 # first o items are not after the start
        c = [True]
        if after is None:
            if o:
                continue
        else:
            if o:
                c.append(Not(lex_lt(after, items[o - 1][0])))
            if o < n:
                c.append(lex_lt(after, items[o][0]))
        if o + m > n:
            continue
        c.append(ge(lim, m) if o + m == n else eq(lim, m))
        c += [same(out[k], items[o + k][1]) for k in range(m)]
        alts.append(And(*c))
    return Or(*alts) if alts else False


def cap(lim, has):
    if not has:
        return 100
    return ite(ge(lim, 100), 100, lim) if not isinstance(lim, int) else min(lim, 100)


def tokens_post(inp, out):
    mine, theirs, hs, start, hl, lim = inp
    if panicked(out) or out is None:
        return [("listing tokens never fails", False)]
    items = [tid("me", i) for i in range(len(mine))] + [tid("ot", i) for i in range(len(theirs))]
    return [("all tokens are listed once, in order, from the start key on", sorted_page([(i, i) for i in items], start if hs else None, cap(lim, hl), out[1]))]


def pools_post(inp, out):
    xs, ys, fees, liqs, hs, sx, sy, sf, hl, lim = inp
    if panicked(out) or out is None:
        return [("listing pools never fails", False)]
    items = [((x, y, f), (([x], [y], f, 10), (l, 6, 7, 8, 9, 10, 11, 12, 13))) for x, y, f, l in zip(xs, ys, fees, liqs)]
    return [("all pools are listed once, in order, from the start key on", sorted_page(items, (sx, sy, sf) if hs else None, cap(lim, hl), out[1]))]


def pair_post(inp, out):
    fees, tss, has, liqs, a, b, qf, qt = inp
    if panicked(out):
        return [("pool queries never fail unexpectedly", False)]
    l, p, e, t, f, ad = out
    is_pair = Or(And(seq_eq(a, "axc"), seq_eq(b, "byc")), And(seq_eq(a, "byc"), seq_eq(b, "axc")))
    eqt = seq_eq(a, b)
    g = []
    want = [(("axc", "byc", fees[i], tss[i]), (liqs[i], 6, 7, 8, 9, 10, 11, 12, 13)) for i in range(len(fees)) if has[i]]
    if l is None:
        g.append(("pools of a pair can be listed", eqt))
    else:
        g.append(("the pools of a pair are exactly those of the registered tiers, in either token order", Or(And(is_pair, same(l[1], want)), And(Not(is_pair), len(l[1]) == 0))))
    hit = [(And(is_pair, eq(qf, fees[i]), eq(qt, tss[i])), (liqs[i], 6, 7, 8, 9, 10, 11, 12, 13)) for i in range(len(fees)) if has[i]]
    if p is None:
        g.append(("an existing pool is found in either token order", Not(Or(*[h for h, _ in hit]))))
    else:
        g.append(("a pool lookup returns that pool", Or(*[And(h, same(p[1], w)) for h, w in hit])))
    mem = Or(*[And(eq(qf, fees[i]), eq(qt, tss[i])) for i in range(len(fees))])
    ex = e[1] if e is not None else None
    g.append(("a tier is reported exactly if registered", False if ex is None else (mem if ex is True else Not(mem) if ex is False else Iff(ex, mem))))
    g.append(("the tiers, protocol fee and admin are reported exactly", And(same(t[1], list(zip(fees, tss))), eq(f[1], qf), same(ad[1], "zzadm")) if None not in (t, f, ad) else False))
    return g


def ticks_post(inp, out):
    t1, t2, to, idx, one = inp
    if panicked(out):
        return [("tick queries never fail unexpectedly", False)]
    l, t = out
    T = {-10: t1, 20: t2}
    have = {k for k, v in T.items() if v[0] == 1}
    g = []
    if l is None:
        g.append(("existing ticks can be listed", not all(i in have for i in idx)))
    else:
        g.append(("listed ticks carry their liquidity change, in the order asked", all(i in have for i in idx) and len(l[1]) == len(idx) and
                  And(*[And(eq(r[0], i), eq(r[1], T[i][2]), x_eq(r[2], eq(T[i][1], 1))) for r, i in zip(l[1], idx)])))
    if t is None:
        g.append(("an existing tick is found", And(*[ne(one, k) for k in have])))
    else:
        r = t[1]
        g.append(("a tick lookup returns that tick", Or(*[And(eq(one, k), eq(r[0], k), x_eq(r[1], eq(T[k][1], 1)), eq(r[2], T[k][2]), eq(r[3], T[k][3]), eq(r[5], T[k][4]), eq(r[6], T[k][5]), eq(r[7], T[k][6])) for k in have])))
    return g


def pt_post(inp, out):
    n, t, u, off = inp
    if panicked(out):
        return [("tick queries never fail unexpectedly", False)]
    if out is None:
        return [("position ticks can be listed for any offset within the list", gt(off, n))]
    alts = []
    for o in range(n + 1):
        want = []
        for i in range(o, n):
            if t[0]:
                want.append((-10 * (i + 1), t[4], t[5], t[6]))
            if u[0]:
                want.append((10, u[4], u[5], u[6]))
        alts.append(And(eq(off, o), same(out[1], want)))
    return [("position ticks are the lower and upper ticks of the positions from the offset on", Or(*alts))]


def expired(k, v, h, n):
    return ge(h, v) if k == 0 else ge(n, v) if k == 1 else False


def filt(ents, out, incl, h, n, lim=None):
    """out = the unexpired (or all) entries in order, at most lim"""
    m = len(out)
    alts = []
    from itertools import combinations
    for sel in combinations(range(len(ents)), m):
        c = []
        last = sel[-1] if sel else -1
        for i, (s, k, v) in enumerate(ents):
            x = expired(k, v, h, n)
            if i in sel:
                c.append(True if incl else Not(x))
            elif lim is not None and i > last:
                # after the page: either expired or the page is full
                c.append(Or(False if incl else x, eq(lim, m)))
            else:
                c.append(False if incl else x)
        for j, i in enumerate(sel):
            s, k, v = ents[i]
            c.append(And(same(out[j][0], s), eq(out[j][1], k), eq(out[j][2], v) if k != 2 else True))
        if lim is not None:
            c.append(ge(lim, m))
        alts.append(And(*c))
    return Or(*alts) if alts else False


def nft_post(inp, out):
    owner, n, idx, liq, k0, v0, k1, v1, ops, ok, ov, incl, hs, start, hl, lim, h, nanos = inp
    if panicked(out):
        return [("token queries never fail unexpectedly", False)]
    a, b, c, d = out
    apps = [("s0", k0, v0), ("s1", k1, v1)]
    g = [("a token can be queried exactly if it exists", ge(idx, n) if a is None else lt(idx, n)), ("all token queries agree", (a is None) == (b is None) == (c is None))]
    if a is not None and b is not None and c is not None:
        for own, ap in ((a[1][0], a[1][1]), (c[1][0], c[1][1])):
            g.append(("the owner of a token is reported", seq_eq(own, owner)))
            g.append(("exactly the valid approvals of the token are reported", Or(And(eq(idx, 0), filt(apps, ap, incl, h, nanos)), And(gt(idx, 0), len(ap) == 0))))
        for p in (b[1], c[1][2]):
            full = [(s, k, v if k != 2 else 0) for s, k, v in apps]
            g.append(("the token's position is reported", Or(*[And(eq(idx, i), same(p, (liq, -10 * (i + 1), 10, 1, 2, 3, 4, 5, full if i == 0 else []))) for i in range(n)])))
    if d is None:
        return g + [("operators can be listed", False)]
    cp = cap(lim, hl)
    alts = []
    for o in range(len(ops) + 1):
        cc = []
        if hs:
            if o:
                cc.append(ge(start, ops[o - 1]))
            if o < len(ops):
                cc.append(lt(start, ops[o]))
        elif o:
            continue
        alts.append(And(*cc, filt([([ops[i]], ok[i], ov[i]) for i in range(o, len(ops))], d[1], incl, h, nanos, cp)))
    g.append(("exactly the valid operators of the owner are listed, in order", Or(*alts)))
    return g


def check(c):
    c.bounds += ["position lists of up to 3, every offset and limit (u32); 3 pools, 3 registered tiers with or without a pool, two ticks, 3 operators, two approvals, every start key, limit, time and expiration"]
    tasks = []
    for n in (0, 1, 3):
        for hl, ho in ((1, 1), (0, 1), (1, 0), (0, 0)):
            def t(c, n=n, hl=bool(hl), ho=bool(ho)):
                mine = [ivar("m%d" % i, 0, U128) for i in range(n)]
                c.scenario("positions %d %s%s" % (n, hl, ho), "root_q_positions", [mine, [ivar("o", 0, U128)], hl, ivar("lim", 0, U32), ho, ivar("off", 0, U32), ivar("idx", 0, U32)], positions_post, ignore_panics=False)
            tasks.append(t)
    for hs, hl in ((1, 1), (0, 1), (1, 0), (0, 0)):
        def t(c, hs=bool(hs), hl=bool(hl)):
            c.scenario("all tokens %s%s" % (hs, hl), "root_q_tokens", [[1, 2], [3], hs, sbytes("st", 2) + [ivar("b%d" % i, 0, 255) for i in range(4)], hl, ivar("lim", 0, U32)], tokens_post, ignore_panics=False)
            f = [ivar("f0", 0, 10), 20, ivar("f2", 0, U64)]
            c.scenario("pools %s%s" % (hs, hl), "root_q_pools", [[97, 97, 98], [98, 98, 99], f, [ivar("l%d" % i, 0, U128) for i in range(3)], hs, ivar("sx", 97, 99), ivar("sy", 97, 99), ivar("sf", 0, U64), hl, ivar("lim", 0, U32)],
                       pools_post, ignore_panics=False)
        tasks.append(t)
    for has in ((True, False, True), (True, True, True), (False, False, False)) if not c.thorough else [(a, b, d) for a in (True, False) for b in (True, False) for d in (True, False)]:
        def t(c, has=has):
            fs = [ivar("f0", 0, 10), ivar("f1", 11, 20), 30]
            for nm, a, b in (("xy", "axc", "byc"), ("yx", "byc", "axc"), ("any", sbytes("a", 3), sbytes("b", 3))):
                a, b = [list(v.encode()) if isinstance(v, str) else v for v in (a, b)]
                c.scenario("pools of a pair %s %s" % (nm, has), "root_q_pair", [fs, [1, 10, ivar("t2", 1, 100)], list(has), [ivar("l%d" % i, 0, U128) for i in range(3)], a, b, ivar("qf", 0, U64), ivar("qt", 0, U16)], pair_post, ignore_panics=False)
        tasks.append(t)
    for h1, h2 in ((1, 1), (1, 0), (0, 0)):
        def t(c, h1=h1, h2=h2):
            for idx in ([], [-10], [20, -10], [-10, 20, 20], [30], [-10, 0]):
                c.scenario("ticks %d%d %s" % (h1, h2, idx), "root_q_ticks", [symtick("a", h1, None, True), symtick("b", h2, None, True), symtick("o", 1, None, True), idx, ivar("one", -MAX_TICK, MAX_TICK)], ticks_post, ignore_panics=False)
        tasks.append(t)
    for n, ht, hu in ((0, 0, 0), (2, 1, 1), (3, 1, 1), (2, 0, 1), (2, 1, 0)):
        def t(c, n=n, ht=ht, hu=hu):
            c.scenario("position ticks %d %d%d" % (n, ht, hu), "root_q_position_ticks", [n, symtick("a", ht, None, True), symtick("b", hu, None, True), ivar("off", 0, U32)], pt_post, ignore_panics=False)
        tasks.append(t)
    for j, (k0, k1, ok) in enumerate((((0, 1, (0, 1, 2))), (1, 2, (2, 0, 0)), (2, 0, (1, 1, 0)))):
        for incl in (False, True):
            for hs, hl in ((True, True), (False, False)):
                def t(c, k0=k0, k1=k1, ok=ok, incl=incl, hs=hs, hl=hl, j=j):
                    c.scenario("token and operators %d %s %s" % (j, incl, hs), "root_q_nft", [sbytes("ow", 2, 97, 104), 2, ivar("idx", 0, U32), ivar("liq", 0, U128), k0, ivar("v0", 0, U64), k1, ivar("v1", 0, U64),
                               [98, 99, 101], list(ok), [ivar("ov%d" % i, 0, U64) for i in range(3)], incl, hs, ivar("st", 97, 102), hl, ivar("lim", 0, U32), ivar("h", 0, U64), ivar("nanos", 0, U64)], nft_post, ignore_panics=False)
                tasks.append(t)
    c.par(tasks)


if __name__ == "__main__":
    main("C15", check)
