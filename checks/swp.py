"""Specification of a swap over root_swap, shared by C08 (limits and state), C09 (quotes) and C10 (payments)."""
from steps import *

FEE = 6 * 10 ** 9
ONE = 10 ** 12


class W:
    def __init__(self, inp, out):
        (self.xn, self.yn, self.fee, self.ts, self.pfee, self.p, self.tick, self.start, self.r, self.ls, self.outs, self.x2y, self.amount, self.by,
         self.limit, self.hx, self.fx, self.hy, self.fy, self.nanos) = inp
        (self.res, self.q, self.pre, self.post, self.ticks, self.active, self.rf) = out
        self.ok = self.res[0] == "ok"
        self.msgs = self.res[1] if self.ok else None

    def flows(self):
        """net amounts (x, y) moved from the user to the contract by attached coins and messages; None if a message is unexpected"""
        tot = {"x": self.fx if self.hx and self.xn else 0, "y": self.fy if self.hy and self.yn else 0}
        return flows(tot, self.msgs, self.xn, self.yn)


def flows(tot, msgs, xn, yn):
    for (k, tok, frm, to, amt) in msgs:
        side = None
        for sd, native, nm in (("x", xn, "ax"), ("y", yn, "by")):
            if x_eq(tok, nm + ("n" if native else "c")) is True:
                side, nat = sd, native
        if side is None:
            return None
        if k == 2 and nat and x_eq(to, "me") is True:
            tot[side] = sub(tot[side], amt)
        elif k == 0 and not nat and x_eq(to, "me") is True:
            tot[side] = sub(tot[side], amt)
        elif k == 1 and not nat and x_eq(frm, "me") is True and x_eq(to, "contract") is True:
            tot[side] = add(tot[side], amt)
        else:
            return None
    return tot["x"], tot["y"]


def paid_got(w):
    f = w.flows()
    if f is None:
        return None
    return (f[0], sub(0, f[1])) if w.x2y else (f[1], sub(0, f[0]))


def post_state(c):
    def post(inp, out):
        if out == ("panic",):
            return []
        w = W(inp, out)
        g = []
        if not w.ok:
            funds = True
            if w.rf is not None:
                # enough coins attached, yet refused
                nat, has, amt = (w.xn, w.hx, w.fx) if w.x2y else (w.yn, w.hy, w.fy)
                funds = (ge(amt, w.rf[1][0]) if has else eq(w.rf[1][0], 0)) if nat else True
            g.append(("a swap that its definition allows is not refused", Or(w.rf is None, Not(funds))))
            return g
        p0, p1, tick = w.pre[1], w.post[1], w.post[2]
        if w.x2y:
            g.append(("the price moves in the swap's direction and not past the limit", And(le(p1, p0), ge(p1, w.limit))))
        else:
            g.append(("the price moves in the swap's direction and not past the limit", And(ge(p1, p0), le(p1, w.limit))))
        g.append(("the pool ends in the tick interval of its price",
                  And(tick % w.ts == 0, ge(p1, price(c, tick)), le(p1, price(c, tick + w.ts)) if tick + w.ts <= MAX_TICK else True) if isinstance(tick, int) else False))
        g.append(("the pool's liquidity is that of the positions around its tick", eq(w.post[0], w.active)))
        pg = paid_got(w)
        if pg is None:
            g.append(("only the swapped tokens move", False))
        else:
            paid, got = pg
            if w.by:
                g.append(("an exact-in swap charges exactly the amount", eq(paid, w.amount)))
            else:
                g.append(("an exact-out swap pays at most the amount", le(got, w.amount)))
            g.append(("a swap never pays nothing", gt(got, 0)))
        if w.rf is None:
            g.append(("a swap outside its definition is refused", False))
            return g
        rin, rout, rp, ro = w.rf[1]
        if pg is not None:
            g.append(("the user pays the sum of the steps' inputs and fees", eq(pg[0], rin)))
            g.append(("the user receives the sum of the steps' outputs", eq(pg[1], rout)))
        for i, n in ((0, "liquidity"), (1, "price"), (2, "tick"), (3, "fee growth x"), (4, "fee growth y"), (5, "protocol fee x"), (6, "protocol fee y"),
                     (7, "start time"), (8, "last time")):
            g.append(("the pool's %s follows from the steps" % n, eq(w.post[i], rp[i])))
        for k, (tb, o) in enumerate(zip(w.ticks, ro)):
            tk, bit = tb
            if tk is None:
                g.append(("ticks stay initialized", False))
                continue
            tk = tk[1]
            g.append(("crossed ticks turn their outside values, others keep them", And(eq(tk[5], o[0]), eq(tk[6], o[1]), eq(tk[7], o[2]), bit)))
            up = add(0, 0)
            dn = 0
            e = sorted(set(w.r))[k]
            for i, l in enumerate(w.ls):
                if w.r[2 * i] == e:
                    up = add(up, l)
                if w.r[2 * i + 1] == e:
                    dn = add(dn, l)
            g.append(("swaps leave the ticks' liquidity alone", And(eq(tk[0], e), eq(mul(sub(mul(2, bi(tk[1])), 1), tk[2]), sub(up, dn)), eq(tk[3], add(up, dn)))))
        return g
    return post


def bi(x):
    return int(x) if isinstance(x, bool) else ite(x, 1, 0) if isinstance(x, B) else x


def world(c, x2y, by, tick, lim, ts=10, r=(-20, 20, -10, 10), lmax=10 ** 30, amax=10 ** 30, lmin=1, amin=1, fee=FEE, pfee=10 ** 10, closed=False, outs=None, coins=None, zero=(), now=True):
    """lim: (low, high) tick prices bounding the limit"""
    hi = price(c, tick + ts) if tick + ts <= MAX_TICK else MAX_SP
    sp = ivar("sp", price(c, tick), hi if closed else hi - 1)
    n = len(set(r))
    ls = [ivar("l%d" % i, 0 if i in zero else lmin, lmax) for i in range(len(r) // 2)]
    o = []
    for k in range(n):
        o += [ivar("ox%d" % k, 0, U128), ivar("oy%d" % k, 0, U128), ivar("os%d" % k, 0, U64)] if outs else [7 * 10 ** 30 + k, 5 * 10 ** 30 + 3 * k, 11 + k]
    xn, yn, hx, hy = coins or (False, False, False, False)
    l0, l1 = [price(c, t) if isinstance(t, int) and abs(t) <= MAX_TICK else t for t in lim]
    limit = l0 if l0 == l1 else ivar("lim", l0, l1)
    return [xn, yn, fee, ts, pfee, [0, sp, *([ivar("gx", 0, U128), ivar("gy", 0, U128)] if outs else [10 ** 36, 10 ** 35]), ivar("px", 0, 10 ** 30), ivar("py", 0, 10 ** 30)], tick, ivar("start", 0, 10 ** 6), list(r), ls, o,
            x2y, ivar("amt", amin, amax), by, limit, hx, ivar("fx", 0, U128) if hx else 0, hy, ivar("fy", 0, U128) if hy else 0, 10 ** 15]
