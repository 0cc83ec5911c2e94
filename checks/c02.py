import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from lib import *

ONE = 10 ** 12
P0 = lambda px, py: (7, 10 ** 24, 0, 11, 12, px, py, 1, 2)


def member(fee, ts, tf, tt):
    return Or(*[And(eq(fee, a), eq(ts, b)) for a, b in zip(tf, tt)]) if tf else False


def post(kind):
    def f(inp, out):
        (_, admin, sender, other, pf, val, tf, tt, fee, ts, recv, px, py, xn, yn, pfee, pts) = inp
        if out == ("panic",):
            return []
        r, (a2, pf2, tiers2), recv2, pool2 = out
        is_admin = seq_eq(admin, sender)
        is_recv = seq_eq(recv, sender)
        ok = r[0] == "ok"
        tiers = [(x, y) for x, y in zip(tf, tt)]
        pool = P0(px, py)
        same_cfg = And(seq_eq(a2, admin), x_eq(pf2, pf), x_eq(tiers2, tiers))
        same_pool = And(seq_eq(recv2, recv), x_eq(pool2, pool))
        if not ok:
            g = []
            if kind in (0, 2):
                g.append(("the admin is never refused", Not(is_admin)))
            if kind == 1:
                g.append(("the fee receiver can always withdraw", Not(is_recv)))
            if kind == 3:
                g.append(("the admin is never refused", Not(is_admin)))
            if kind == 4:
                g.append(("the admin can add a valid fee tier", Not(And(is_admin, ge(ts, 1), le(ts, 100), lt(fee, ONE), Not(member(fee, ts, tf, tt))))))
            if kind == 5:
                g.append(("the admin can remove an existing fee tier", Not(And(is_admin, member(fee, ts, tf, tt)))))
            return g
        msgs = r[1]
        g = []
        if kind == 1:
            g.append(("only the pool's fee receiver withdraws protocol fees", is_recv))
            g.append(("withdrawal changes only the protocol fee balances", And(same_cfg, seq_eq(recv2, recv),
                      x_eq(pool2, P0(0, 0)))))
            exp = []
            # exact payout to the receiver
            paid = {0: 0, 1: 0}
            odd = False
            for (k, tok, frm, to, amt) in msgs:
                side = 0 if x_eq(tok, "axn" if xn else "axc") is True else 1
                odd = Or(odd, Not(x_eq(tok, ("axn" if xn else "axc") if side == 0 else ("byn" if yn else "byc"))),
                         Not(seq_eq(to, sender)), k != (2 if (xn if side == 0 else yn) else 0))
                paid[side] = add(paid[side], amt)
            g.append(("the receiver is paid exactly the accrued protocol fees", And(Not(odd), eq(paid[0], px), eq(paid[1], py))))
            return g
        g.append(("only the admin may change configuration", is_admin))
        g.append(("no funds move", len(msgs) == 0))
        if kind == 0:
            g.append(("ChangeAdmin sets exactly the admin", And(seq_eq(a2, other), x_eq(pf2, pf), x_eq(tiers2, tiers), same_pool)))
        elif kind == 2:
            g.append(("ChangeProtocolFee sets exactly the protocol fee", And(seq_eq(a2, admin), x_eq(pf2, val), x_eq(tiers2, tiers), same_pool)))
        elif kind == 3:
            g.append(("ChangeFeeReceiver sets exactly the receiver", And(same_cfg, seq_eq(recv2, other), x_eq(pool2, pool))))
        elif kind == 4:
            g.append(("only valid fee tiers are added", And(ge(ts, 1), le(ts, 100), lt(fee, ONE))))
            g.append(("AddFeeTier appends exactly the tier", And(seq_eq(a2, admin), x_eq(pf2, pf), x_eq(tiers2, tiers + [(fee, ts)]), same_pool)))
            g.append(("a fee tier is never registered twice", Not(member(fee, ts, tf, tt))))
        elif kind == 5:
            n = len(tiers)
            alts = [And(eq(tiers[i][0], fee), eq(tiers[i][1], ts), x_eq(tiers2, tiers[:i] + tiers[i + 1:])) for i in range(n)] if len(tiers2) == n - 1 else []
            g.append(("RemoveFeeTier removes exactly one copy of the tier", And(Or(*alts) if alts else False, seq_eq(a2, admin), x_eq(pf2, pf), same_pool)))
        return g
    return f


def inst_post(inp, out):
    sender, pf = inp
    if out == ("panic",):
        return []
    r, cfg = out
    if r[0] != "ok":
        return [("instantiation succeeds", False)]
    a, p, t = cfg[1]
    return [("the instantiator becomes admin with the given protocol fee and no tiers", And(seq_eq(a, sender), x_eq(p, pf), len(t) == 0))]


def check(c):
    names = ["ChangeAdmin", "WithdrawProtocolFee", "ChangeProtocolFee", "ChangeFeeReceiver", "AddFeeTier", "RemoveFeeTier"]
    lens = [(2, 2, 2), (2, 1, 2), (1, 2, 2)] if not c.thorough else [(a, b, d) for a in (1, 2, 3) for b in (1, 2, 3) for d in (1, 2, 3)]
    ntier = (2,) if not c.thorough else (0, 1, 2, 3)
    c.bounds.append("address lengths (admin,sender,receiver) %s with symbolic letters; %s registered fee tiers; one pool; every u64/u128 value" % (lens, ntier))
    for kind in range(6):
        for (la, ls, lr) in lens:
            for nt in (ntier if kind >= 4 else ntier[:1]):
                for (xn, yn) in ([(False, True), (True, False)] if kind == 1 else [(False, False)]):
                    inp = [kind, sbytes("adm", la), sbytes("snd", ls), sbytes("oth", 2), ivar("pf", 0, U64), ivar("val", 0, U64),
                           [ivar("f%d" % i, 0, U64) for i in range(nt)], [ivar("t%d" % i, 0, U16) for i in range(nt)],
                           ivar("fee", 0, U64), ivar("ts", 0, U16), sbytes("rcv", lr), ivar("px", 0, U128), ivar("py", 0, U128), xn, yn, 30, 10]
                    ps = c.scenario("%s len %d/%d/%d tiers %d %d%d" % (names[kind], la, ls, lr, nt, xn, yn), "root_admin", inp, post(kind))
                    if la == ls == lr:
                        c.reachable(names[kind], ps, lambda o: o[0][0] == "ok")
                    c.reachable(names[kind], ps, lambda o: o[0][0] == "err")
    c.scenario("instantiate", "root_instantiate", [sbytes("snd", 3), ivar("pf", 0, U64)], inst_post)


if __name__ == "__main__":
    main("C02", check)
