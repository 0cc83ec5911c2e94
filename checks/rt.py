"""Specification of a two-hop route over root_route, shared by C09 (quotes) and C10 (payments)."""
from swp import *

TOK = ("ax", "by", "cz")


class R:
    def __init__(self, inp, out):
        (self.an, self.bn, self.cn, self.fee, self.ts, self.pfee, self.p1, self.t1, self.p2, self.t2, self.r, self.ls, self.l2, self.outs, self.kind, self.d1, self.d2,
         self.amount, self.expected, self.slippage, self.has, self.fs, self.nanos) = inp
        (self.res, self.q, self.post1, self.post2, self.rf) = out
        self.nat = (self.an, self.bn, self.cn)
        self.ok = self.res[0] == "ok"
        # (token in, token out) of each hop
        pool2 = {0: (1, 2), 1: (0, 2), 2: (0, 1)}[self.kind]
        self.hops = [(0, 1) if self.d1 else (1, 0), pool2 if self.d2 else pool2[::-1]]

    def flows(self):
        tot = [self.fs[i] if self.has[i] and self.nat[i] else 0 for i in range(3)]
        for (k, tok, frm, to, amt) in self.res[1]:
            side = None
            for i in range(3):
                if x_eq(tok, TOK[i] + ("n" if self.nat[i] else "c")) is True:
                    side = i
            if side is None:
                return None
            if (k == 2 and self.nat[side] or k == 0 and not self.nat[side]) and x_eq(to, "me") is True:
                tot[side] = sub(tot[side], amt)
            elif k == 1 and not self.nat[side] and x_eq(frm, "me") is True and x_eq(to, "contract") is True:
                tot[side] = add(tot[side], amt)
            else:
                return None
        return tot


def route_world(c, kind, d1, d2, nat=(False, False, False), has=(0, 0, 0), exp=None, slip=None, ts=100, r=(-100, 100), lmin=10 ** 20, lmax=10 ** 22, amin=1000, amax=10 ** 10, fix2=False):
    def pool(n):
        return [0, ivar("sp" + n, price(c, 40), price(c, 60)), 10 ** 36, 10 ** 35, ivar("px" + n, 0, 10 ** 30), ivar("py" + n, 0, 10 ** 30)]
    q2 = pool("2")
    if fix2:
        q2[1] = price(c, 50) + 12345
    outs = []
    for k in range(len(set(r))):
        outs += [7 * 10 ** 30 + k, 5 * 10 ** 30 + 3 * k, 11 + k]
    ls = [ivar("l%d" % i, lmin, lmax) for i in range(len(r) // 2)]
    l2 = [10 ** 21 + 7 if fix2 else ivar("m%d" % i, lmin, lmax) for i in range(len(r) // 2)]
    return [*nat, FEE, ts, 10 ** 10, pool("1"), 0, q2, 0, list(r), ls, l2, outs, kind, d1, d2, ivar("amt", amin, amax),
            ivar("exp", 0, U128) if exp is None else exp, ivar("slip", 0, ONE) if slip is None else slip, list(has),
            [ivar("f%d" % i, 0, U128) if has[i] else 0 for i in range(3)], 10 ** 15]
