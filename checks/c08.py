from swp import *
import c01

ORD = dict(lmin=10 ** 12, lmax=10 ** 24, amin=1000, amax=10 ** 15)


def swaps(c):
    """(name, world) of the swaps explored"""
    out = []
    for x2y in (True, False):
        s = -1 if x2y else 1
        for by in (True, False):
            n = "%s exact-%s " % ("x_to_y" if x2y else "y_to_x", "in" if by else "out")

            def add_(nm, **kw):
                out.append((n + nm, lambda c, x2y=x2y, by=by: world(c, x2y, by, **kw)))
            # one stretch, everything symbolic
            add_("inside one stretch", tick=0, lim=(-10, 0) if x2y else (0, 10), outs=True)
            # through an inner tick, over the liquidity of the outer position only
            add_("through a tick", tick=0, lim=(15 * s, 15 * s), **ORD)
            add_("to the limit at a tick", tick=0, lim=(10 * s, 10 * s), **ORD)
            # adjacent positions: both signs of the liquidity change
            add_("adjacent positions", tick=0 if x2y else -10, lim=(5 * s, 5 * s), r=(-10, 0, 0, 10), **ORD)
            # starting exactly at the upper price of the interval
            add_("from the upper end of the interval", tick=-10 if x2y else -20, lim=(15 * s, 15 * s) if x2y else (-5, -5), closed=True, **ORD)
            # no liquidity around the start
            add_("through a gap", tick=0, lim=(15 * s, 15 * s), r=(-20, -10, 10, 20), **ORD)
            # free swaps, all fees to the protocol
            add_("without fee", tick=0, lim=(15 * s, 15 * s), fee=0, **ORD)
            add_("all fees to the protocol", tick=0, lim=(10 * s, 10 * s), pfee=ONE, fee=5 * 10 ** 11, **ORD)
            if c.thorough:
                add_("through a tick, any limit", tick=0, lim=(-20, -10) if x2y else (10, 20), **ORD)
                add_("through a tick, everything symbolic", tick=0, lim=(15 * s, 15 * s), outs=True)
                add_("through two ticks", tick=0, lim=(25 * s, 25 * s), r=(-30, 30, -20, 20, -10, 10), **ORD)
    return out


def check(c):
    c.bounds += [
        "pools with tick spacing 10 and one to three positions; start price anywhere in the start interval; ticks, limits and modes as listed per scenario (inside one stretch: all "
        "liquidity 1..1e30 and amounts 1..1e30, every limit in the stretch; through ticks: liquidity 1e6..1e18 units, amounts 1e3..1e15, two stretches)",
        "fee 0.6% (also 0 and 50%), protocol fee share 1% (also 100%); fee growth and outside values symbolic inside one stretch",
        "the swap step is executed and constrained by what C01 decides about it; get_tick_at_sqrt_price is replaced by what C07 decides about it",
        "exact-out y_to_x swaps in which rounding makes an inner step deliver less than asked (and be repeated) are outside the bounds"]
    tasks = []
    for name, w in swaps(c):
        def t(c, name=name, w=w):
            ps = c.scenario(name, "root_swap", w(c), post_state(c), feas=smt.feasible_real, **swap_kw(c))
            c.reachable(name, ps, lambda o: o[0][0] == "ok")
        tasks.append(t)
    c.par(tasks + c01.steps(c), inner=1)


if __name__ == "__main__":
    main("C08", check)
