from lp import *

ONE = 10 ** 12
S34 = 10 ** 34


def panicked(o):
    return isinstance(o, tuple) and o[:1] == ("panic",)


def add_fee_post(inp, out):
    p, a, in_x, pf = inp
    pr = div(add(mul(a, pf), ONE - 1), ONE)        # rounded up
    if out is None or panicked(out):
        # refused only if some quantity does not fit
        gr = div(mul(sub(a, pr), S34), p[0]) if not (isinstance(p[0], int) and p[0] == 0) else 0
        return [("a fee is booked unless the growth or the protocol's balance overflows", Or(gt(gr, U128), gt(add(p[4] if in_x else p[5], pr), U128)))]
    n = out[1]
    other = [(0, p[0]), (1, p[1]), (2, 7), (4 if in_x else 3, p[3] if in_x else p[2]), (6 if in_x else 5, p[5] if in_x else p[4]), (7, 1), (8, 2)]
    g = [("a fee changes only its own token's growth and protocol balance", And(*[eq(n[k], v) for k, v in other]))]
    g0, g1 = (p[2], n[3]) if in_x else (p[3], n[4])
    b0, b1 = (p[4], n[5]) if in_x else (p[5], n[6])
    if isinstance(p[0], int) and p[0] == 0:
        g.append(("without liquidity nothing is booked", And(eq(g1, g0), eq(b1, b0))))
        return g
    g.append(("the protocol gets exactly its rounded-up share", eq(b1, add(b0, pr))))
    g.append(("the rest grows the fee per unit of liquidity, rounded down", modeq(g1, add(g0, div(mul(sub(a, pr), S34), p[0])), 2)))
    return g


def share_post(inp, out):
    l1, l2, l3, a = inp
    if out is None or panicked(out):
        return []
    x, y, z = out[1]
    return [("positions never earn more than the fee collected", le(add(add(x, y), z), a)),
            ("each share is at most the position's part of the fee", And(le(mul(x, add(add(l1, l2), l3)), mul(a, l1)), le(mul(y, add(add(l1, l2), l3)), mul(a, l2))))]


def cross_post(inp, out):
    lo, hi, ts, up, down, g, gx, gy, o, liq, change, sign, start, now = inp
    if out is None or panicked(out):
        return []
    (bx, by), (ax, ay), l2, (tl, tu) = out[1]
    t = hi if up else lo
    frm = t if down else t - ts
    ins = lo <= frm < hi
    r = [("growth counts for a range exactly while the price is in it, whatever is crossed", And(modeq(ax, add(bx, gx if ins else 0), 3), modeq(ay, add(by, gy if ins else 0), 3)))]
    d = change if bool(sign) != down else sub(0, change)
    r.append(("crossing a tick adds or removes its net liquidity", eq(l2, add(liq, d))))
    a, b = (tu, tl) if up else (tl, tu)
    oth = o[0:2] if up else o[2:4]
    r.append(("crossing leaves other ticks alone", And(eq(b[5], oth[0]), eq(b[6], oth[1]), eq(b[7], 0))))
    r.append(("crossing keeps the tick's liquidity", And(eq(a[2], change), eq(a[3], change), x_eq(a[1], sign))))
    return r


def inside_of(w, k):
    """fee growth inside the position's range, modulo 2^128; k = 0: x, 1: y"""
    gl = w.p[2 + k]
    bl = w.tl[4 + k] if w.tick >= w.lower else sub(gl, w.tl[4 + k])
    ab = w.tu[4 + k] if w.tick < w.upper else sub(gl, w.tu[4 + k])
    return sub(sub(gl, bl), ab)


def pool_same(w, liq):
    p2 = w.pool
    return And(eq(p2[0], liq), eq(p2[1], w.p[1]), eq(p2[2], w.tick), eq(p2[3], w.p[2]), eq(p2[4], w.p[3]), eq(p2[5], w.p[4]), eq(p2[6], w.p[5]), eq(p2[7], w.start))


def lp_post(inp, out):
    if panicked(out):
        return []
    w = L(inp, out)
    if not w.ok:
        return []
    g = []
    if w.kind == 0:
        # ticks created by the message start with all growth so far outside if at or below the current tick
        for nm, t, t2, ix in (("lower", w.tl, w.l2, w.lower), ("upper", w.tu, w.u2, w.upper)):
            tk = t2[0]
            if tk is None:
                g.append(("both ticks exist", False))
                continue
            tk = tk[1]
            below = ix <= w.tick
            want = (t[4], t[5]) if t[0] else ((w.p[2], w.p[3]) if below else (0, 0))
            g.append(("a tick starts with exactly the growth below it", And(eq(tk[5], want[0]), eq(tk[6], want[1]))))
            if not t[0]:
                t[4:6] = list(want)
        if w.pos is None:
            return g + [("the position is stored", False)]
        ps = w.pos[1]
        g.append(("a new position starts with the current growth and nothing owed", And(modeq(ps[3], inside_of(w, 0)), modeq(ps[4], inside_of(w, 1)), eq(ps[6], 0), eq(ps[7], 0))))
        return g
    fees = []
    for k in range(2):
        d = sub(inside_of(w, k), w.q[1 + k])
        fees.append(d)
    pd = w.paid(w.msgs)
    if pd is None:
        return [("only the owed tokens move", False)]
    base = (0, 0) if w.kind == 2 else (w.ref[2], w.ref[3])
    for k in range(2):
        b = base[k]
        if b is None:
            return [("the position's amounts are defined", False)]
        if isinstance(b, tuple):
            b = b[1]
        got = sub(sub(0, pd[k]), add(b, w.q[3 + k]))
        # got = floor((d mod 2^128) * L / 10^34)
        alts = [eq(got, div(mul(mod(fees[k], M128), w.q[0]), S34))]
        for j in range(-3, 4):
            m = add(fees[k], j * M128)
            alts.append(And(ge(m, 0), lt(m, M128), eq(got, div(mul(m, w.q[0]), S34))))
        g.append(("the owner is paid exactly the fees of its range since the last claim plus what was owed", Or(*alts)))
    if w.kind == 2:
        g.append(("claiming changes no pool state", pool_same(w, w.p[0])))
        g.append(("claiming changes no tick", And(w.tick_same(w.tl, w.l2, w.lower), w.tick_same(w.tu, w.u2, w.upper), w.tick_same(w.to, w.o2, w.other))))
        if w.pos is None:
            return g + [("the position remains", False)]
        ps = w.pos[1]
        g.append(("claiming resets the position's fees and keeps the rest", And(eq(ps[0], w.q[0]), eq(ps[1], w.lower), eq(ps[2], w.upper), modeq(ps[3], inside_of(w, 0)), modeq(ps[4], inside_of(w, 1)),
                  eq(ps[5], 3), eq(ps[6], 0), eq(ps[7], 0), eq(w.n2, w.np))))
    return g


def inputs(c, kind, ts, lower, upper, cur, has, xn, yn, np, small):
    other = upper + ts
    tl, tu, to = symtick("l", has[0], 1, True), symtick("u", has[1], 0, True), symtick("o", 1, 1)
    tl[2:4] = [ivar("lg", 0, U128)] * 2
    tu[2:4] = [ivar("ug", 0, U128)] * 2
    q = [ivar("ql", 1, U128), ivar("qx", 0, U128), ivar("qy", 0, U128), ivar("qox", 0, U64), ivar("qoy", 0, U64)]
    d = ivar("d", 1, U128)
    if small:
        # the fee part is independent of the amounts of the range
        q[0] = ivar("ql", 1, U64)
    sp = price(c, cur)
    return [kind, np, xn, yn, FEE, ts, [ivar("L", 0, U128), sp, ivar("gx", 0, U128), ivar("gy", 0, U128), ivar("px", 0, U128), ivar("py", 0, U128)], cur,
            ivar("start", 0, U64), 0, lower, upper, other, tl, tu, to, q, d, 0, U128, False, 0, False, 0, ivar("h", 0, U64), ivar("nanos", 0, U64)]


def check(c):
    rng = [(10, -10, 10, -20), (10, -10, 10, -10), (10, -10, 10, 0), (10, -10, 10, 10), (1, 5, 6, 5)]
    if c.thorough:
        rng += [(10, -10, 10, 20), (100, -221800, 221700, 0), (1, 5, 6, 4), (1, 5, 6, 6), (5, 0, 100, 50)]
    c.bounds += ["booking a fee: every amount, liquidity, growth, balance and protocol fee up to 100%; sharing: every amount and three positions of any liquidity",
                 "crossing: every growth, outside value, liquidity, both ticks, both directions; claim, remove and create: ranges (spacing, lower, upper, current) %s, every growth, outside value, liquidity, owed amount (u64), price at the current tick" % (rng,)]
    tasks = []
    for in_x in (True, False):
        for liq in (None, 0):
            def t(c, in_x=in_x, liq=liq):
                p = [ivar("L", 1, U128) if liq is None else 0, ivar("sp", MIN_SP, MAX_SP)] + [ivar(n, 0, U128) for n in ("gx", "gy", "px", "py")]
                c.scenario("book a fee %s %s" % ("x" if in_x else "y", liq), "root_add_fee", [p, ivar("a", 0, U128), in_x, ivar("pf", 0, ONE)], add_fee_post, ignore_panics=False)
            tasks.append(t)

    def share(c):
        ls = [ivar("l%d" % i, 0, U128 // 4) for i in range(3)]
        c.scenario("shares of a fee", "root_fee_share", ls + [ivar("a", 0, U128)], share_post, pre=[gt(add(add(ls[0], ls[1]), ls[2]), 0)])
    tasks.append(share)
    for up in (False, True):
        for down in (False, True):
            def t(c, up=up, down=down):
                for sign in (True, False):
                    c.scenario("cross the %s tick %s %s" % ("upper" if up else "lower", "down" if down else "up", sign), "root_cross_inside",
                               [-10, 10, 10, up, down, [ivar("g0", 0, U128), ivar("g1", 0, U128)], ivar("gx", 0, U128), ivar("gy", 0, U128), [ivar("o%d" % i, 0, U128) for i in range(4)],
                                ivar("L", 0, U128), ivar("ch", 0, U128), sign, ivar("st", 0, U64), ivar("now", 0, U64)], cross_post)
            tasks.append(t)
    for j, (ts, lo, up, cur) in enumerate(rng):
        for kind in (0, 1, 2):
            hs = [(1, 1)] if kind else ([(0, 0), (0, 1), (1, 0)] if c.thorough or j == 2 else [[(0, 0), (0, 1), (1, 0)][j % 3]])
            for h in hs:
                def t(c, kind=kind, ts=ts, lo=lo, up=up, cur=cur, h=h, j=j):
                    inp = inputs(c, kind, ts, lo, up, cur, h, j % 2 == 1, j % 3 == 0, 1 + j % 2 if kind else 1, kind == 1)
                    if kind == 0:
                        inp[2] = inp[3] = False
                    ps = c.scenario("%s %s %s" % (("create", "remove", "claim")[kind], (ts, lo, up, cur), h), "root_lp", inp, lp_post, pre=[ge(inp[25], mul(inp[8], 10 ** 6))])
                    c.reachable("succeeds", ps, lambda o: o[0][0] == "ok")
                tasks.append(t)
    c.par(tasks)


if __name__ == "__main__":
    main("C12", check)
