import os, sys, random
from decimal import Decimal, localcontext, ROUND_FLOOR, ROUND_CEILING
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from steps import *

TOL = 10 ** 7     # allowed relative error of a price is 1/TOL (a tenth of a thousandth of a tick)
_pow = {}


def exact(t):
    """(lo, hi) around 1.0001^t * 10^48, to 90 digits"""
    if t not in _pow:
        with localcontext() as x:
            x.prec = 100
            v = Decimal("1.0001") ** t * Decimal(10) ** 48
            e = v * Decimal(10) ** -80
            _pow[t] = (int((v - e).to_integral_value(ROUND_FLOOR)), int((v + e).to_integral_value(ROUND_CEILING)))
    return _pow[t]


def one_price(t, out):
    """what holds of the price computed for tick t"""
    if panicked(out):
        return False
    if out is None or abs(t) > MAX_TICK:
        return out is None and abs(t) > MAX_TICK
    lo, hi = exact(t)
    p = out[1]
    p2 = mul(p, p)
    return And(ge(mul(p2, TOL), lo * (TOL - 2)), le(mul(p2, TOL), hi * (TOL + 2)), ge(p, MIN_SP), le(p, MAX_SP))


def price_post(base, n):
    def post(inp, out):
        tick = inp[0]
        return [("the price of tick t is sqrt(1.0001^t), defined exactly within the tick range", And(*[Or(ne(tick, t), one_price(t, out)) for t in range(base, base + n)]))]
    return post


def panicked(o):
    return isinstance(o, tuple) and o[:1] == ("panic",)


def tick_post(t):
    def post(inp, out):
        return [("the lookup gives the tick interval of the price", not panicked(out) and out is not None and eq(out[1], t))]
    return post


def check(c):
    n1, n10 = (8000, 120) if c.thorough else (1200, 20)
    c.bounds += ["prices of ticks: every tick of blocks of 32 (one symbolic tick) around every power of two, both signs, the ends of the range and 24 other places (240 in the thorough tier); compared with the exact power of 1.0001 to a relative 1e-7",
                 "lookups: every price of each listed interval [price(t), price(t+spacing)): %d intervals at spacing 1 (spread over the range in runs of 8), %d at spacing 10, 3 to 5 each at spacings 2, 5, 7, 60 and 100, both ends of the price range" % (n1, n10),
                 "all prices outside the supported range are refused"]
    tasks = []
    rnd = random.Random(7)
    bases = set()
    for i in range(18):
        for sg in (1, -1):
            bases.add(sg * (1 << i) - 16)
    bases |= {MAX_TICK - 20, -MAX_TICK - 11}
    for i in range(240 if c.thorough else 24):
        bases.add(rnd.randint(-MAX_TICK, MAX_TICK - 32))
    c.validate_per_run = 1

    def prices(c, bs):
        for base in bs:
            c.scenario("price of ticks %d.." % base, "root_price", [ivar("t", base, base + 31)], price_post(base, 32), feas=None, ignore_panics=False)
    bs = sorted(bases)
    for k in range(14):
        tasks.append(lambda c, k=k: prices(c, bs[k::14]))
    L = []
    n = n1 // 8
    for i in range(n):
        t = -MAX_TICK + i * (2 * MAX_TICK - 7) // (n - 1)
        L += [(t + k, 1) for k in range(8)]
    for i in range(n10):
        L.append(((-22181 + i * 44362 // (n10 - 1)) * 10, 10))
    for ts in (2, 5, 7, 60, 100):
        mx = MAX_TICK // ts * ts
        L += [(t, ts) for t in (-mx, -ts, mx)]
        if ts in (2, 100):
            L += [(60000, ts), (-150000, ts)]

    def look(c, ls):
        for t, ts in ls:
            a = price(c, t)
            b = price(c, t + ts) - 1 if t + ts <= MAX_TICK else MAX_SP
            c.scenario("lookup of the prices of tick %d spacing %d" % (t, ts), "root_tick_at", [ivar("p", a, b), ts], tick_post(t), feas=smt.feasible_real, ignore_panics=False, max_paths=60000)
    L.sort(key=lambda x: -x[1])
    nb = 42
    for k in range(nb):
        tasks.append(lambda c, k=k: look(c, L[k::nb]))

    def outside(c):
        for nm, a, b in (("below", 0, MIN_SP - 1), ("above", MAX_SP + 1, U128)):
            for ts in (1, 100):
                c.scenario("lookup of prices %s the range, spacing %d" % (nm, ts), "root_tick_at", [ivar("p", a, b), ts],
                           lambda i, o: [("the lookup refuses prices outside the supported range", o is None or panicked(o))], feas=smt.feasible_real, ignore_panics=False)
    tasks.append(outside)
    c.par(tasks, inner=1)


if __name__ == "__main__":
    main("C07", check)
