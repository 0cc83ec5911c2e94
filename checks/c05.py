from lp import *


def pool_frame(w, liq, mod_time=True):
    p2 = w.pool
    return And(eq(p2[0], liq), eq(p2[1], w.p[1]), eq(p2[2], w.tick), eq(p2[3], w.p[2]), eq(p2[4], w.p[3]), eq(p2[5], w.p[4]), eq(p2[6], w.p[5]), eq(p2[7], w.start))


def post(inp, out):
    if out == ("panic",):
        return []
    w = L(inp, out)
    L0, sp = w.p[0], w.p[1]
    g = []
    if w.kind == 0:
        d = w.delta
        valid = w.lower < w.upper and all(t % w.ts == 0 and abs(t) <= MAX_TICK - MAX_TICK % w.ts for t in (w.lower, w.upper))
        if not w.ok:
            if valid:
                gl = add(w.tl[3], d) if w.tl[0] else d
                gu = add(w.tu[3], d) if w.tu[0] else d
                rx, ry = w.ref[0], w.ref[1]
                why = Or(eq(d, 0), lt(sp, w.slo), gt(sp, w.shi), ge(gl, max_liq(w.ts)), ge(gu, max_liq(w.ts)),
                         gt(add(L0, d), U128) if w.inside else False, rx is None, ry is None)
                if rx is not None and w.xn:
                    why = Or(why, lt(w.fx, rx[1]) if w.hx else gt(rx[1], 0))
                if ry is not None and w.yn:
                    why = Or(why, lt(w.fy, ry[1]) if w.hy else gt(ry[1], 0))
                g.append(("a valid position can be opened", why))
            return g
        g.append(("positions open only with a valid range, non-zero liquidity and within the price limits",
                  And(valid, gt(d, 0), ge(sp, w.slo), le(sp, w.shi))))
        g.append(("the pool's liquidity counts exactly the positions around the price", pool_frame(w, add(L0, d) if w.inside else L0)))
        g.append(("the lower tick gains the liquidity", w.tick_moved(w.tl, w.l2, w.lower, d, d)))
        g.append(("the upper tick gains the liquidity", w.tick_moved(w.tu, w.u2, w.upper, sub(0, d), d)))
        g.append(("other ticks are untouched", w.tick_same(w.to, w.o2, w.other)))
        g.append(("per-tick liquidity stays below its maximum", And(lt(tick_of(w.l2)[3], max_liq(w.ts)), lt(tick_of(w.u2)[3], max_liq(w.ts)))
                  if w.l2[0] is not None and w.u2[0] is not None else False))
        g.append(("exactly one position is added", eq(w.n2, w.np + 1)))
        if w.pos is None:
            g.append(("the position is stored", False))
        else:
            ps = w.pos[1]
            g.append(("the position records range and liquidity", And(eq(ps[0], d), eq(ps[1], w.lower), eq(ps[2], w.upper), eq(ps[5], w.height), eq(ps[6], 0), eq(ps[7], 0), len(ps[8]) == 0)))
        pd = w.paid(w.msgs)
        if pd is None or w.ref[0] is None or w.ref[1] is None:
            g.append(("only the owed tokens move", False))
        else:
            g.append(("the opener pays the amounts rounded up", And(ge(pd[0], w.ref[0][1]), ge(pd[1], w.ref[1][1]))))
            g.append(("the opener pays no more than the amounts rounded up", And(le(pd[0], w.ref[0][1]), le(pd[1], w.ref[1][1]))))
    elif w.kind == 1:
        d = w.q[0]
        if not w.ok:
            if w.tl[0] and w.tu[0]:
                over = Or(w.ref[2] is None, w.ref[3] is None)
                g.append(("an owner can always remove its position", Or(lt(w.tl[3], d), lt(w.tu[3], d), lt(L0, d) if w.inside else False, eq(d, 0), over)))
            return g
        g.append(("the pool's liquidity counts exactly the positions around the price", pool_frame(w, sub(L0, d) if w.inside else L0)))
        g.append(("the lower tick loses the liquidity", w.tick_moved(w.tl, w.l2, w.lower, sub(0, d), sub(0, d))))
        g.append(("the upper tick loses the liquidity", w.tick_moved(w.tu, w.u2, w.upper, d, sub(0, d))))
        g.append(("other ticks are untouched", w.tick_same(w.to, w.o2, w.other)))
        g.append(("exactly one position is removed", eq(w.n2, w.np - 1)))
        pd = w.paid(w.msgs)
        if pd is None or w.ref[2] is None or w.ref[3] is None:
            g.append(("only the owed tokens move", False))
        else:
            g.append(("the owner receives the amounts rounded down plus the owed fees",
                      And(eq(sub(0, pd[0]), add(w.ref[2][1], w.q[3])), eq(sub(0, pd[1]), add(w.ref[3][1], w.q[4])))))
    elif w.kind == 3:
        if not w.ok:
            return g
        a = w.paid(w.first)
        L2 = L(inp, (w.r, [], w.pool, (w.l2, w.u2, w.o2), w.n2, w.pos, w.ref))
        L2.hx = L2.hy = False
        b = L2.paid(w.msgs)
        if a is None or b is None:
            g.append(("only the owed tokens move", False))
        else:
            # the rounded-up and rounded-down amounts of the range are ordered (decided separately): enough to compare with those
            for j in range(2):
                up, dn = w.ref[j], w.ref[j + 2]
                viaref = And(ge(a[j], up[1]), le(sub(0, b[j]), dn[1])) if up is not None and dn is not None else False
                g.append(("opening and closing a position never gains tokens", viaref if viaref is True else Or(viaref, ge(add(a[j], b[j]), 0))))
        g.append(("opening and closing restores the pool", pool_frame(w, L0)))
        g.append(("opening and closing restores the lower tick", w.tick_moved(w.tl, w.l2, w.lower, 0, 0)))
        g.append(("opening and closing restores the upper tick", w.tick_moved(w.tu, w.u2, w.upper, 0, 0)))
        g.append(("opening and closing leaves other ticks", w.tick_same(w.to, w.o2, w.other)))
        g.append(("opening and closing restores the position count", eq(w.n2, w.np)))
    return g


def tick_of(t):
    return t[0][1]


def inputs(c, kind, ts, lower, upper, cur, has, xn, yn, np, signs=(1, 0), other=None, sp=None):
    hl, hu = has
    if other is None:
        other = next(t for t in (upper + ts, lower - ts, lower + ts, 0) if abs(t) <= MAX_TICK - MAX_TICK % ts and t not in (lower, upper))
    tl = symtick("l", hl, signs[0])
    tu = symtick("u", hu, signs[1])
    to = symtick("o", 1, None)
    q = [ivar("ql", 0, U128), 0, 0, ivar("qox", 0, U64), ivar("qoy", 0, U64)] if kind == 1 else [7, 0, 0, 0, 0]
    return [kind, np, xn, yn, FEE, ts, [ivar("L", 0, U128), sp if sp is not None else sp_in(c, cur, ts), 0, 0, ivar("px", 0, U128), ivar("py", 0, U128)], cur,
            ivar("start", 0, U64), 0, lower, upper, other, tl, tu, to, q, ivar("d", 0, U128), ivar("slo", 0, U128), ivar("shi", 0, U128),
            True if kind != 1 else False, ivar("fx", 0, U128), kind != 1 and yn, ivar("fy", 0, U128), ivar("h", 0, U64), ivar("nanos", 0, U64)]


def check(c):
    rng = [(10, -10, 10, -20), (10, -10, 10, -10), (10, -10, 10, 0), (10, -10, 10, 10), (100, -221800, 221800, 0), (1, 5, 6, 5), (100, 1000, 221800, -100), (2, -221818, -221800, 50000)]
    if c.thorough:
        rng += [(10, -20, 20, -10), (10, 0, 10, 0), (1, -221818, 221818, -221818), (1, -221818, 221818, 221817), (5, -100000, 100000, 99995), (50, 50, 100, 50), (50, 50, 100, 0), (50, 50, 100, 100)]
    c.bounds.append("tick ranges (spacing, lower, upper, current tick) %s; every price inside the current tick interval, every pool liquidity, liquidity delta, tick content, slippage limit, "
                    "attached coin amount, owed fee (u64) and timestamp; native and cw20 tokens; fee growth zero (fees: C12)" % (rng,))
    tasks = []

    def add_task(name, *a, **k):
        def t(c):
            inp = inputs(c, *a, **k)
            pre = [ge(inp[25], mul(inp[8], 10 ** 6))]
            ps = c.scenario(name, "root_lp", inp, post, pre=pre)
            return ps
        tasks.append(t)
    for j, (ts, lo, up, cur) in enumerate(rng):
        hs = [(0, 0), (1, 1), (0, 1), (1, 0)]
        for i, h in enumerate(hs if (c.thorough or j == 2) else [hs[j % 4]]):
            for s in [(1, 0), (0, 1)]:
                if s == (0, 1) and h == (0, 0):
                    continue
                add_task("create %s ticks %s sign %s" % ((ts, lo, up, cur), h, s), 0, ts, lo, up, cur, h, j % 2 == 0, j % 3 == 0, 1, s)
        for s in ([(1, 0)] if not c.thorough else [(1, 0), (0, 1), (1, 1)]):
            add_task("remove %s sign %s" % ((ts, lo, up, cur), s), 1, ts, lo, up, cur, (1, 1), j % 2 == 1, j % 3 == 0, 1 + j % 2, s)
        add_task("round trip %s" % ((ts, lo, up, cur),), 3, ts, lo, up, cur, (0, 0) if j % 2 else (1, 1), False, False, 1, (1, 0))
    for bad in [(10, 10, -10, 0), (10, 0, 0, 0), (10, -15, 10, 0), (10, -10, 15, 0), (10, -10, 221820, 0), (10, -221820, 10, 0)]:
        def t(c, bad=bad):
            ts, lo, up, cur = bad
            inp = inputs(c, 0, ts, lo, up, cur, (0, 0), False, False, 0, other=20)
            c.scenario("create invalid range %s" % (bad,), "root_lp_bad", inp, bad_post)
        tasks.append(t)
    for is_x in (True, False):
        for order in (0, 1):
            def t(c, is_x=is_x, order=order):
                a, b, l = ivar("a", MIN_SP, MAX_SP), ivar("b", MIN_SP, MAX_SP), ivar("l", 0, U128)
                c.scenario("amounts rounded down are at most those rounded up %s %d" % ("x" if is_x else "y", order), "root_delta_pair", [is_x, a, b, l],
                           lambda i, o: [] if o == ("panic",) or o[0] is None or o[1] is None else [("rounded down <= rounded up", le(o[1][1], o[0][1]))],
                           pre=[le(a, b) if order else gt(a, b)], budget=100)
            tasks.append(t)
    c.par(tasks)


def bad_post(inp, out):
    if out == ("panic",):
        return []
    return [("an invalid tick range is refused", not out)]


if __name__ == "__main__":
    main("C05", check)
