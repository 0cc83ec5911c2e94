"""Specification of the position messages over root_lp, shared by C05 (accounting), C10 (payments) and C12 (fees)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from lib import *

M128 = 1 << 128
FEE = 6 * 10 ** 9


def max_liq(ts):
    return U128 // ((2 * MAX_TICK + 1) // ts)


def price(c, t):
    r = c.native.call("root_price", [t])
    if r is None or r == ("panic",):
        raise Internal("no price for tick %d" % t)
    return r[1]


def sp_in(c, tick, ts):
    """symbolic price within the tick's interval (inclusive of the next tick's price, where a downward swap may stop)"""
    lo = price(c, tick)
    hi = price(c, tick + ts) if tick + ts <= MAX_TICK else MAX_SP
    return ivar("sp", lo, hi - 1)


def symtick(n, has, sign=None, fees=False):
    return [has, ivar(n + "s", 0, 1) if sign is None else sign, ivar(n + "c", 0, U128), ivar(n + "g", 0, U128),
            ivar(n + "x", 0, U128) if fees else 0, ivar(n + "y", 0, U128) if fees else 0, ivar(n + "t", 0, U64)]


def net(sign, change):
    """signed net liquidity of a tick"""
    return add(mul(sub(mul(2, b2i(sign)), 1), change), 0)


def b2i(x):
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, B):
        return ite(x, 1, 0)
    return x


def modeq(a, b, span=3):
    """a == b modulo 2^128 for 0 <= a < 2^128"""
    d = sub(a, b)
    return Or(*[eq(d, k * M128) for k in range(-span, span + 1)])


class L:
    def __init__(self, inp, out):
        (self.kind, self.np, self.xn, self.yn, self.fee, self.ts, self.p, self.tick, self.start, self.last, self.lower, self.upper, self.other,
         self.tl, self.tu, self.to, self.q, self.delta, self.slo, self.shi, self.hx, self.fx, self.hy, self.fy, self.height, self.nanos) = inp
        (self.r, self.first, self.pool, (self.l2, self.u2, self.o2), self.n2, self.pos, self.ref) = out
        self.ok = self.r[0] == "ok"
        self.msgs = self.r[1] if self.ok else None
        self.inside = self.lower <= self.tick < self.upper

    def paid(self, msgs):
        """net amount (x, y) that moves from the user to the contract by the attached coins and the messages; None if some message is unexpected"""
        tot = {"x": self.fx if self.hx and self.xn else 0, "y": self.fy if self.hy and self.yn else 0}
        for (k, tok, frm, to, amt) in msgs:
            side = None
            for sd, native, nm in (("x", self.xn, "ax"), ("y", self.yn, "by")):
                if x_eq(tok, nm + ("n" if native else "c")) is True:
                    side, nat = sd, native
            if side is None:
                return None
            if k == 2 and nat and x_eq(to, "me") is True:
                tot[side] = sub(tot[side], amt)
            elif k == 0 and not nat and x_eq(to, "me") is True:
                tot[side] = sub(tot[side], amt)
            elif k == 1 and not nat and x_eq(frm, "me") is True and x_eq(to, "contract") is True:
                tot[side] = add(tot[side], amt)
            else:
                return None
        return tot["x"], tot["y"]

    def tick_same(self, t, t2, index):
        tk, bit = t2
        tk = tk[1] if tk is not None else None
        if t[0] == 0:
            return And(tk is None, Not(bit))
        if tk is None:
            return False
        return And(bit, x_eq(tk[1], t[1]), x_eq(tk[2], t[2]), x_eq(tk[3], t[3]), x_eq(tk[5], t[4]), x_eq(tk[6], t[5]), x_eq(tk[7], t[6]), eq(tk[0], index))

    def tick_moved(self, t, t2, index, dnet, dgross):
        """the tick's net and gross liquidity change by dnet/dgross; absent ticks count as zero"""
        tk, bit = t2
        tk = tk[1] if tk is not None else None
        n0 = net(t[1], t[2]) if t[0] else 0
        g0 = t[3] if t[0] else 0
        g1 = add(g0, dgross)
        if tk is None:
            return And(Not(bit), eq(g1, 0))
        fo = True
        if t[0]:
            fo = And(eq(tk[5], t[4]), eq(tk[6], t[5]), eq(tk[7], t[6]))
        return And(bit, ne(g1, 0), eq(tk[0], index), eq(net(tk[1], tk[2]), add(n0, dnet)), eq(tk[3], g1), fo)
