"""Contracts of the swap step and of the tick lookup, used where whole swaps are executed.
The step itself is always executed; what C01 decides about it for every input is added as a fact.  The tick lookup is replaced by what C07 decides
about it: the multiple of the spacing whose price is the largest one not above the given price."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from lib import *
from interp import Alts
from values import Agg, ok, err

PRICE = {}
TICK = {}


def price(c, t):
    if t not in PRICE:
        r = c.native.call("root_price", [t])
        if r is None or r == ("panic",):
            raise Internal("no price for tick %d" % t)
        PRICE[t] = r[1]
    return PRICE[t]


def scal(v):
    while isinstance(v, Agg):
        v = v.f[0]
    return v


def fields(ex, name):
    for t in ex.p.types:
        if t.get("adt") == name and t.get("kind") == "struct":
            return [f[0] for f in t["variants"][0]["fields"]]
    raise Unsupported("type " + name)


def step_contract(ex, st, inst, args, v):
    if not isinstance(v, Agg) or v.v != 0:
        return []
    cur, tgt, liq, amt, by, fee = [scal(a) for a in args]
    fs = dict(zip(fields(ex, "oraiswap_v3::SwapResult"), [scal(x) for x in v.f[0].f]))
    n, i, o, f = fs["next_sqrt_price"], fs["amount_in"], fs["amount_out"], fs["fee_amount"]
    iv = st.path.iv
    for x, lo, hi in ((cur, MIN_SP, MAX_SP), (tgt, MIN_SP, MAX_SP), (amt, 0, U128), (fee, 0, 10 ** 12 - 1)):
        l, h = iv(x)
        if l is None or h is None or l < lo or h > hi:
            return []
    down = st.path.simp(ge(cur, tgt))
    if down not in (True, False):
        return [And(le(n, Max(cur, tgt)), ge(n, Min(cur, tgt)))]
    out = [le(n, cur), ge(n, tgt)] if down else [ge(n, cur), le(n, tgt)]
    by = st.path.simp(by) if isinstance(by, B) else by
    if by is True or by == 1:
        out += [le(add(i, f), amt), Or(eq(n, tgt), eq(add(i, f), amt))]
    elif by is False or by == 0:
        # going up, an inner step may fall short of the amount by rounding and be repeated: such repetitions are outside the bounds
        out += [le(o, amt), Or(eq(n, tgt), eq(o, amt))]
    return out


def Max(a, b):
    return ite(ge(a, b), a, b)


def Min(a, b):
    return ite(ge(a, b), b, a)


def tick_summary(c, limit=80):
    def h(ex, st, fn, args):
        p, ts = scal(args[0]), scal(args[1])
        if not isinstance(ts, int):
            raise Unsupported("tick lookup with symbolic spacing")
        lo, hi = st.path.iv(p)
        lo2, hi2 = max(lo, MIN_SP), min(hi, MAX_SP)
        alts = []
        if lo < MIN_SP or hi > MAX_SP:
            alts.append((Or(lt(p, MIN_SP), gt(p, MAX_SP)), err(Agg(0, ()))))
        if lo2 <= hi2:
            a, b = lookup(c, lo2, ts), lookup(c, hi2, ts)
            if (b - a) // ts > limit:
                raise Unsupported("tick lookup over %d intervals [%s, %s] of %r" % ((b - a) // ts, lo, hi, p))
            for t in range(a, b + 1, ts):
                cs = []
                if t > a:
                    cs.append(ge(p, price(c, t)))
                elif lo < MIN_SP:
                    cs.append(ge(p, MIN_SP))
                if t < b:
                    cs.append(lt(p, price(c, t + ts)))
                elif hi > MAX_SP:
                    cs.append(le(p, MAX_SP))
                alts.append((And(*cs), ok(t)))
        if len(alts) == 1:
            return alts[0][1]
        return Alts(alts)
    return h


def lookup(c, p, ts):
    if (p, ts) not in TICK:
        r = c.native.call("root_tick_at", [p, ts])
        if r is None or r == ("panic",):
            raise Internal("no tick for price %d" % p)
        TICK[(p, ts)] = r[1]
    return TICK[(p, ts)]


def swap_kw(c):
    return dict(contracts={"oraiswap_v3::compute_swap_step": step_contract}, summaries={"oraiswap_v3::get_tick_at_sqrt_price": tick_summary(c)})
