import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from lib import *


def panicked(o):
    return isinstance(o, tuple) and o[:1] == ("panic",)


def chunk(name, n=64):
    """chunk whose bits are independent symbolic bits"""
    t = 0
    for i in range(n):
        t = add(t, mul(ivar("%s_%d" % (name, i), 0, 1), 1 << i))
    return t


def pos(tick, ts):
    i = (tick + MAX_TICK) // ts
    return i // 64, i % 64


def bit(vals, c0, tick, ts):
    """whether the tick's bit is set in the chunks"""
    c, b = pos(tick, ts)
    if not c0 <= c < c0 + len(vals):
        return 0
    v = vals[c - c0]
    return mod(div(v, 1 << b), 2)


def none_set(vals, c0, lo, hi, ts):
    """no bit set for ticks lo..hi"""
    if lo > hi:
        return True
    (c1, b1), (c2, b2) = pos(lo, ts), pos(hi, ts)
    g = []
    for c in range(c1, c2 + 1):
        if c0 <= c < c0 + len(vals):
            x, y = (b1 if c == c1 else 0), (b2 if c == c2 else 63)
            g.append(eq(mod(div(vals[c - c0], 1 << x), 1 << (y - x + 1)), 0))
    return And(*g)


def search_post(inp, out):
    ts, c0, vals, tick, up = inp
    mx = MAX_TICK // ts * ts
    if panicked(out):
        return [("a search never fails", False)]
    lo, hi = (tick + ts, min(tick + 256 * ts, mx)) if up else (max(tick - 256 * ts, -mx), tick)
    if out is None:
        return [("a search that finds nothing had nothing to find within 256 spacings", none_set(vals, c0, lo, hi, ts))]
    r = out[1]
    if not isinstance(r, int):
        return [("a search returns a definite tick", False)]
    g = [("the tick found lies within the search range", lo <= r <= hi and r % ts == 0)]
    g.append(("the tick found is initialized", eq(bit(vals, c0, r, ts), 1)))
    g.append(("no initialized tick lies between", none_set(vals, c0, lo, r - ts, ts) if up else none_set(vals, c0, r + ts, hi, ts)))
    return g


def flip_post(inp, out):
    ts, c0, vals, other, tick, on = inp
    if panicked(out):
        return [("flipping a tick never fails unexpectedly", False)]
    r, before, after, vs, oth, okq = out
    was = eq(bit(vals, c0, tick, ts), 1)
    g = [("the query reports the tick's bit", And(okq, x_eq(before, was))),
         ("a tick can be set only if unset and reset only if set", x_eq(r, Not(was) if on else was))]
    c, b = pos(tick, ts)
    ch = mul(ite(was, -1, 1), 1 << b)
    ch = ite(r, ch, 0) if isinstance(r, B) else (ch if r else 0)
    g.append(("exactly the tick's bit changes", And(*[eq(y, add(x, ch) if c0 + i == c else x) for i, (x, y) in enumerate(zip(vals, vs))])))
    g.append(("the query reports the new state", x_eq(after, on if r is True else Or(And(r, on), And(Not(r), was)) if not isinstance(r, bool) else was)))
    g.append(("other pools keep their ticks", eq(oth, other)))
    return g


def tickmap_post(inp, out):
    ts, c0, vals, lower, upper, x2y = inp
    if panicked(out):
        return []
    if out is None:
        return [("a tickmap can be queried", False)]
    a, b = pos(lower, ts)[0], pos(upper, ts)[0]
    want = [(c0 + i, v) for i, v in enumerate(vals) if a <= c0 + i <= b]
    if x2y:
        want = want[::-1]
    return [("a tickmap lists exactly the stored chunks of the range in order", x_eq([list(x) for x in out[1]], [list(x) for x in want]))]


def amount_post(inp, out):
    ts, c0, vals, lower, upper = inp
    if lower > upper:
        return []
    if panicked(out):
        return [("counting the initialized ticks of a valid range never fails", False)]
    mx = MAX_TICK // ts * ts
    valid = lower % ts == 0 and upper % ts == 0 and lower >= -mx and upper <= mx
    if out is None:
        return [("counting the initialized ticks of a valid range never fails", not valid)]
    n = 0
    for t in range(lower, upper + 1, ts):
        n = add(n, bit(vals, c0, t, ts))
    return [("the count is the number of initialized ticks in the range", And(valid, eq(out[1], n)))]


def check(c):
    c.bounds += ["tick spacings 1, 10, 100 (and 7 for odd divisions); start ticks in the middle, at chunk borders and at both ends of the price range; every content of the six chunks around the start tick (one bit variable per tick)"]
    tasks = []

    def starts(ts):
        mx = MAX_TICK // ts * ts
        i0 = MAX_TICK // ts
        al = (64 - i0 % 64) * ts          # first bit of a chunk
        return [0, al, al - ts, mx, mx - ts, -mx, -mx + ts, mx - 100 * ts, -mx + 100 * ts, 1000 * ts]
    S = {1: starts(1), 10: starts(10)[:3], 100: starts(100), 7: starts(7)[:2]}
    if c.thorough:
        S = {ts: starts(ts) for ts in (1, 2, 5, 7, 10, 60, 99, 100)}
    for ts, ss in S.items():
        for tick in ss:
            for up in (True, False):
                def t(c, ts=ts, tick=tick, up=up):
                    a, b = (tick, tick + 257 * ts) if up else (tick - 257 * ts, tick)
                    c0 = max(0, pos(max(a, -MAX_TICK), ts)[0])
                    c1 = pos(min(b, MAX_TICK // ts * ts), ts)[0]
                    vals = [chunk("c%d" % i) for i in range(c0, c1 + 1)]
                    c.scenario("search %s ts=%d from %d" % ("up" if up else "down", ts, tick), "root_search", [ts, c0, vals, tick, up], search_post, feas=smt.feasible_real,
                               ignore_panics=False, prune=False)
                tasks.append(t)
    for ts, tick in ((1, 0), (1, MAX_TICK), (1, -MAX_TICK), (10, -70), (100, 6300), (7, 70)):
        for on in (True, False):
            def t(c, ts=ts, tick=tick, on=on):
                c0 = pos(tick, ts)[0]
                c0 = max(0, c0 - 1)
                c.scenario("flip ts=%d tick=%d %s" % (ts, tick, on), "root_flip", [ts, c0, [chunk("v0"), chunk("v1")], chunk("o"), tick, on], flip_post, feas=smt.feasible_real, ignore_panics=False)
            tasks.append(t)
    for ts, a, b in ((1, 0, 0), (1, -100, 100), (10, -1000, 700), (100, -6400, 6400), (1, -MAX_TICK, -MAX_TICK + 200), (1, MAX_TICK - 200, MAX_TICK)):
        for x2y in (True, False):
            def t(c, ts=ts, a=a, b=b, x2y=x2y):
                c0 = max(0, pos(a, ts)[0] - 1)
                n = pos(b, ts)[0] - c0 + 2
                c.scenario("tickmap ts=%d %d..%d %s" % (ts, a, b, x2y), "root_tickmap", [ts, c0, [ivar("v%d" % i, 0, U64) for i in range(n)], a, b, x2y], tickmap_post, ignore_panics=False)
            tasks.append(t)
    for ts, k0, k1 in ((1, 0, 0), (1, 0, 63), (1, 0, 64), (1, 5, 63), (1, 5, 60), (1, 63, 64), (1, 0, 200), (1, 40, 170), (100, 3, 130), (7, 64, 127)):
        def t(c, ts=ts, k0=k0, k1=k1):
            i0 = MAX_TICK // ts
            base = (-(i0 % 64)) % 64 + 64
            a, b = (base + k0) * ts, (base + k1) * ts
            c0 = pos(a, ts)[0]
            c.scenario("count ts=%d %d..%d" % (ts, a, b), "root_ticks_amount", [ts, c0, [chunk("v%d" % i) for i in range(5)], a, b], amount_post, ignore_panics=False)
        tasks.append(t)

    def t(c):
        c.scenario("count from the lowest tick", "root_ticks_amount", [100, 0, [chunk("v%d" % i) for i in range(3)], -221800, -221800 + 150 * 100], amount_post, ignore_panics=False)
        c.scenario("count of an invalid range", "root_ticks_amount", [10, 300, [chunk("v0")], -5, 20], amount_post, ignore_panics=False)
        c.scenario("count beyond the highest tick", "root_ticks_amount", [10, 300, [chunk("v0")], -50, 221820], amount_post, ignore_panics=False)
    tasks.append(t)
    c.par(tasks, inner=1)


if __name__ == "__main__":
    main("C06", check)
