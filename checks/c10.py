from rt import *
import c08


def post_pay(c):
    """single swaps with native coins attached"""
    def post(inp, out):
        if out == ("panic",):
            return []
        w = W(inp, out)
        nat, has, amt = (w.xn, w.hx, w.fx) if w.x2y else (w.yn, w.hy, w.fy)
        g = []
        if w.rf is None:
            return [("a swap outside its definition is refused", not w.ok)]
        rin, rout = w.rf[1][0], w.rf[1][1]
        funded = (ge(amt, rin) if has else False) if nat else True
        if not w.ok:
            return [("a swap that is paid for is not refused", Not(funded))]
        g.append(("a swap of a native token needs the coins attached", funded))
        pg = paid_got(w)
        if pg is None:
            return g + [("only the swapped tokens move, between the user and the contract", False)]
        # coins of the output token attached by mistake are not part of the swap
        oh, oa, on = (w.hy, w.fy, w.yn) if w.x2y else (w.hx, w.fx, w.xn)
        extra = oa if oh and on else 0
        g.append(("the user pays exactly the swap's input", eq(pg[0], rin)))
        g.append(("the user receives exactly the swap's output", eq(add(pg[1], extra), rout)))
        return g
    return post


def post_route(inp, out):
    if out == ("panic",):
        return []
    w = R(inp, out)
    g = []
    if w.rf is None:
        return [("a route outside its definition is refused", not w.ok)]
    i1, o1, i2, o2, q1, q2 = w.rf[1]
    (a, b), (d, e) = w.hops
    enough = ge(mul(o2, ONE), mul(w.expected, sub(ONE, w.slippage)))
    if not w.ok:
        funded = True
        for t, i in ((a, i1), (d, i2)):
            if w.nat[t]:
                funded = And(funded, ge(w.fs[t], i) if w.has[t] else False)
        if a == d and w.nat[a]:
            return g        # the same coins cannot pay both hops
        return [("a route that is paid for and yields its minimum is not refused", Not(And(enough, funded)))]
    g.append(("a route yields at least its minimum", enough))
    f = w.flows()
    if f is None:
        return g + [("only the routed tokens move, between the user and the contract", False)]
    want = [0, 0, 0]
    want[a] = add(want[a], i1)
    want[b] = sub(want[b], o1)
    want[d] = add(want[d], i2)
    want[e] = sub(want[e], o2)
    used = (a, d)
    for t in range(3):
        if t in used or not (w.nat[t] and w.has[t]):
            g.append(("every token moves by exactly what the hops charge and pay", eq(f[t], want[t])))
    for n, (x, y) in (("first", (w.post1, q1)), ("second", (w.post2, q2))):
        g.append(("the %s pool changes as by its swap" % n, And(*[eq(p, q) for p, q in zip(x, y)])))
    return g


COINS = [((True, True), (1, 0)), ((True, False), (1, 0)), ((True, True), (1, 1)), ((True, False), (0, 0)), ((False, True), (0, 1)), ((False, True), (0, 0))]


def check(c):
    c.bounds += ["single swaps: one stretch, both directions and modes, every combination of cw20 and native tokens with the input coin attached in any amount or not at all, output coin attached or not",
                 "routes: two hops over pools (a,b) then (b,c), (a,c) or (a,b) again, tick spacing 100, the price staying in one interval, liquidity 1e14..1e16 units, amounts 1e3..1e10 (the second pool of an x_to_y x_to_y route has a fixed price and liquidity); any attached amounts, expected amount and slippage",
                 "coins attached for a token that the call does not charge are outside the claim",
                 "the swap step is executed and constrained by what C01 decides about it; get_tick_at_sqrt_price is replaced by what C07 decides about it"]
    tasks = []
    for x2y in (True, False):
        for by in (True, False):
            for (xn, yn), (hi, ho) in COINS:
                if not x2y:
                    (xn, yn), (hx, hy) = (yn, xn), (ho, hi)
                else:
                    hx, hy = hi, ho

                def t(c, x2y=x2y, by=by, xn=xn, yn=yn, hx=hx, hy=hy):
                    n = "%s exact-%s native=%d%d coins=%d%d" % ("x_to_y" if x2y else "y_to_x", "in" if by else "out", xn, yn, hx, hy)
                    s = -1 if x2y else 1
                    ps = c.scenario(n, "root_swap", world(c, x2y, by, tick=0, lim=(10 * s, 10 * s), coins=(xn, yn, bool(hx), bool(hy)), **c08.ORD), post_pay(c), feas=smt.feasible_real, **swap_kw(c))
                    if not (x2y and xn and not hx or not x2y and yn and not hy):
                        c.reachable(n, ps, lambda o: o[0][0] == "ok")
                tasks.append(t)
    NAT = [((False, False, False), (0, 0, 0)), ((True, True, True), (1, 1, 0)), ((True, False, True), (1, 0, 0)), ((True, True, True), (1, 0, 0)), ((False, True, False), (0, 1, 0))]
    for kind, d1, d2 in ((0, True, True), (0, True, False), (0, False, True), (1, True, True), (1, False, True), (1, True, False), (2, True, False)):
        for nat, has in NAT:
            if kind != 1 and nat == NAT[2][0]:
                continue

            def t(c, kind=kind, d1=d1, d2=d2, nat=nat, has=has):
                n = "route %d %s%s native=%d%d%d coins=%d%d%d" % (kind, "+" if d1 else "-", "+" if d2 else "-", *nat, *has)
                c.scenario(n, "root_route", route_world(c, kind, d1, d2, nat, has, fix2=d1 and d2), post_route, feas=smt.feasible_real, **swap_kw(c))
            tasks.append(t)
    c.par(tasks, inner=1)


if __name__ == "__main__":
    main("C10", check)
