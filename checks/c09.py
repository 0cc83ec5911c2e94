from rt import *
import c08


def post_quote(c):
    def post(inp, out):
        if out == ("panic",):
            return []
        w = W(inp, out)
        g = []
        if not w.ok:
            funds = True
            if w.q is not None:
                nat, has, amt = (w.xn, w.hx, w.fx) if w.x2y else (w.yn, w.hy, w.fy)
                funds = (ge(amt, w.q[1][0]) if has else eq(w.q[1][0], 0)) if nat else True
            g.append(("a quoted swap that is paid for is not refused", Or(w.q is None, Not(funds))))
            return g
        if w.q is None:
            return [("a swap that succeeds can be quoted", False)]
        qi, qo, qp, qt = w.q[1]
        pg = paid_got(w)
        if pg is None:
            g.append(("only the swapped tokens move", False))
        else:
            g.append(("the quoted input is what the swap charges", eq(qi, pg[0])))
            g.append(("the quoted output is what the swap pays", eq(qo, pg[1])))
        g.append(("the quoted price is the price after the swap", eq(qp, w.post[1])))
        es = sorted(set(w.r))
        quoted = {t[0]: t for t in qt if isinstance(t[0], int)}
        g.append(("the quoted ticks are distinct initialized ticks", len(quoted) == len(qt) and all(t in es for t in quoted)))
        for k, (tb, e) in enumerate(zip(w.ticks, es)):
            if tb[0] is None:
                g.append(("quoting and swapping keep the ticks", False))
            elif e in quoted:
                g.append(("a quoted tick is as the swap leaves it", x_eq(list(quoted[e]), list(tb[0][1]))))
            else:
                o = w.outs[3 * k:3 * k + 3]
                g.append(("a tick that is not quoted is not changed", And(eq(tb[0][1][5], o[0]), eq(tb[0][1][6], o[1]), eq(tb[0][1][7], o[2]))))
        return g
    return post


def post_route(inp, out):
    if out == ("panic",):
        return []
    w = R(inp, out)
    g = []
    if w.kind == 2:
        return g
    if w.ok:
        if w.q is None:
            return [("a route that succeeds can be quoted", False)]
        f = w.flows()
        if f is None:
            return [("only the routed tokens move", False)]
        # tokens that are the output of the last hop only
        (a, b), (d, e) = w.hops
        if e not in (a, b):
            g.append(("the quoted output is what the route pays", eq(sub(0, f[e]), w.q[1])))
        if w.rf is not None:
            g.append(("the quoted output is that of the swaps in a row", eq(w.q[1], w.rf[1][3])))
    elif not any(w.nat):
        q = w.q[1] if w.q is not None else None
        g.append(("a quoted route above its minimum is not refused", True if q is None else lt(mul(q, ONE), mul(w.expected, sub(ONE, w.slippage)))))
    return g


def check(c):
    c.bounds += ["single swaps: the pools, prices, limits and amounts listed for C08; the quote is asked from the same state just before the swap",
                 "routes: two hops over two distinct pools (tick spacing 100, one position each, the price staying in one interval), liquidity 1e14..1e16 units, amounts 1e3..1e10, any expected amount and slippage",
                 "the swap step is executed and constrained by what C01 decides about it; get_tick_at_sqrt_price is replaced by what C07 decides about it"]
    tasks = []
    for name, w in c08.swaps(c):
        def t(c, name=name, w=w):
            ps = c.scenario(name, "root_swap", w(c), post_quote(c), feas=smt.feasible_real, **swap_kw(c))
            c.reachable(name, ps, lambda o: o[0][0] == "ok")
        tasks.append(t)
    for kind, d1, d2 in ((0, True, True), (0, True, False), (0, False, True), (1, False, True), (1, False, False)):
        def t(c, kind=kind, d1=d1, d2=d2):
            n = "route %d %s%s" % (kind, "+" if d1 else "-", "+" if d2 else "-")
            ps = c.scenario(n, "root_route", route_world(c, kind, d1, d2), post_route, feas=smt.feasible_real, **swap_kw(c))
            c.reachable(n, ps, lambda o: o[0][0] == "ok")
        tasks.insert(0, t)
    c.par(tasks, inner=1)


if __name__ == "__main__":
    main("C09", check)
