import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from lib import *

ONE = 10 ** 12


def in_covers(d, i, a, b, ldp):
    if d == 0:
        # 1e30 covers the truncated numerator of the x amount (less than 1e-14 of one token unit)
        return ge(add(mul(i, mul(mul(a, b), 10 ** 6)), 10 ** 30), mul(ldp, 10 ** 24))
    return ge(mul(i, 10 ** 30), ldp)


def out_at_most(d, o, a, b, ldp):
    if d == 0:
        return le(mul(o, 10 ** 30), ldp)
    return le(mul(o, mul(mul(a, b), 10 ** 6)), mul(ldp, 10 ** 24))


def delta_post(is_x, up, order):
    def post(inp, out):
        _, a, b, liq, _ = inp
        if out is None or out == ("panic",):
            return []
        r = out[1]
        ldp = mul(liq, sub(b, a) if order else sub(a, b))
        if up:
            return [("amount rounded up covers the price move", in_covers(0 if is_x else 1, r, a, b, ldp)),
                    ("amount rounded up is less than two units above the exact amount",
                     up_tight(is_x, r, a, b, ldp))]
        return [("amount rounded down is at most the exact amount", out_at_most(1 if is_x else 0, r, a, b, ldp))]
    return post


def up_tight(is_x, r, a, b, ldp):
    if is_x:
        return True
    return le(mul(sub(r, 1), 10 ** 30), add(ldp, 10 ** 6))


def step_post(by, d):
    def post(inp, out):
        cur, tgt, liq, amt, _, fee = inp
        if out is None:
            return []
        if out == ("panic",):
            return []
        n, i, o, f = out[1][:4]
        g = [("price stays between the current and the target price",
              And(le(n, cur), ge(n, tgt)) if d == 0 else And(ge(n, cur), le(n, tgt)))]
        if by:
            g.append(("input plus fee never exceeds the amount", le(add(i, f), amt)))
            g.append(("a partial fill consumes the whole amount", Or(eq(n, tgt), eq(add(i, f), amt))))
        else:
            g.append(("output never exceeds the amount", le(o, amt)))
            if d == 0:
                g.append(("a partial fill delivers the whole amount", Or(eq(n, tgt), eq(o, amt))))
        # fee of at least fee% of the input, rounded up, when the target is reached
        g.append(("fee is the rounded-up share of the input when the target is reached",
                  Or(ne(n, tgt), And(ge(mul(f, ONE), mul(i, fee)), lt(mul(sub(f, 1), ONE), mul(i, fee)))) if not by
                  else Or(ne(n, tgt), And(ge(mul(f, ONE), mul(i, fee)), lt(mul(sub(f, 1), ONE), mul(i, fee))))))
        refin, refout = out[1][4], out[1][5]
        # exact amounts: x = L*dp/(cur*n), y = L*dp (prices scaled 1e24, liquidity 1e6);
        # the rounded amounts of the price move (decided against the exact ones below) are the reference,
        # the exact bound is the alternative
        dp = sub(cur, n) if d == 0 else sub(n, cur)
        ldp = mul(liq, dp)
        ref = False if refin is None else ge(i, refin[1])
        g.append(("input covers the price move", ref if ref is True else Or(ref, in_covers(d, i, cur, n, ldp))))
        ref = False if refout is None else le(o, refout[1])
        g.append(("output is at most what the price move releases", ref if ref is True else Or(ref, out_at_most(d, o, cur, n, ldp))))
        return g
    return post


def steps(c):
    cur = ivar("cur", MIN_SP, MAX_SP)
    tgt = ivar("tgt", MIN_SP, MAX_SP)
    liq = ivar("liq", 1, U128)
    amt = ivar("amt", 1, U128)
    fee = ivar("fee", 0, ONE - 1)
    c.bounds.append("every price in [MIN_SQRT_PRICE, MAX_SQRT_PRICE], liquidity 1..2^128-1, amount 1..2^128-1, fee 0..<100%; one swap step")
    tasks = []
    for by in (True, False):
        for d in (0, 1):
            def t(c, by=by, d=d):
                pre = [gt(cur, tgt) if d == 0 else lt(cur, tgt)]
                ps = c.scenario("step by_%s %s" % ("in" if by else "out", "x_to_y" if d == 0 else "y_to_x"), "root_swap_step",
                                [cur, tgt, liq, amt, by, fee], step_post(by, d), pre=pre, feas=None, budget=150)
                c.reachable("step", ps, lambda o: o is not None)
            tasks.append(t)
    return tasks


def check(c):
    tasks = steps(c)
    a = ivar("a", MIN_SP, MAX_SP)
    b = ivar("b", MIN_SP, MAX_SP)
    liq = ivar("liq", 1, U128)
    for is_x in (True, False):
        for up in (True, False):
            for order in (True, False):
                def t(c, is_x=is_x, up=up, order=order):
                    ps = c.scenario("delta_%s %s %s" % ("x" if is_x else "y", "up" if up else "down", "a<=b" if order else "a>b"), "root_delta",
                                    [is_x, a, b, liq, up], delta_post(is_x, up, order), pre=[le(a, b) if order else gt(a, b)], feas=None, budget=150)
                    c.reachable("delta", ps, lambda o: o is not None)
                tasks.append(t)
    c.par(tasks, inner=3)


if __name__ == "__main__":
    main("C01", check)
