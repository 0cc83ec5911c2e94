from nft import *


def post(inp, out):
    if out == ("panic",):
        return []
    w = W(inp, out)
    k = w.kind
    if not w.ok:
        return []
    g = [("each account's positions occupy exactly the indices below its count", And(*[wf(l) for l in w.post_raw]))]
    O, S, T = w.pre
    O2, S2, T2 = w.post
    if k in (2, 3):
        g.append(("positions unchanged", w.unchanged_lists()))
    elif k in (0, 1, 9):
        # same positions at the same indices; only the addressed one's approvals (Approve/Revoke) or fee fields (ClaimFee) may differ
        src = 0 if k != 9 else 1
        for l in range(3):
            same_len = x_eq(w.pre_raw[l][0], w.post_raw[l][0])
            g.append(("number of positions unchanged", same_len))
            mine = [True, w.os, w.ot][l] if src == 0 else [w.os, True, w.st][l]
            for i, (a, b) in enumerate(zip(w.pre_raw[l][1], w.post_raw[l][1])):
                hit = And(mine, eq(w.idx, i))
                if a is None or b is None:
                    g.append(("no position appears or vanishes", a is None and b is None))
                    continue
                pa, pb = a[1], b[1]
                weak = And(x_eq(pa[:3], pb[:3]), x_eq(pa[3:8], pb[3:8]) if k != 9 else x_eq(pa[8], pb[8]))
                g.append(("only the addressed position is touched", And(Implies(Not(hit), x_eq(pa, pb)), weak)))
    else:
        src = O if k in (4, 5, 6) else S
        for i, p in enumerate(src):
            c = eq(w.idx, i)
            moved = p[:8] + ([],)
            rest = src[:i] + src[i + 1:]
            if k in (6, 8):
                eO, eS, eT = None, None, None
                same_src = [True, w.os, w.ot] if k == 6 else [w.os, True, w.st]
                for l in range(3):
                    g.append(("removal deletes exactly the addressed position of its owner",
                              Implies(c, Or(And(same_src[l], perm(w.post[l], rest)), And(Not(same_src[l]), x_eq(w.pre_raw[l], w.post_raw[l]))))))
            else:
                src_t = w.ot if k != 7 else w.st
                # target's list
                g.append(("the receiver gets exactly the transferred position",
                          Implies(c, Or(And(src_t, perm(T2, rest + [moved])), And(Not(src_t), perm(T2, T + [moved]))))))
                for l in range(2):
                    is_src = ([True, w.os] if k != 7 else [w.os, True])[l]
                    is_tgt = [w.ot, w.st][l]
                    other = [O, S][l]
                    g.append(("the sender side loses exactly the transferred position", Implies(And(c, is_src, Not(is_tgt)), perm(w.post[l], rest))))
                    g.append(("third parties keep their positions", Implies(And(c, Not(is_src), Not(is_tgt)), x_eq(w.pre_raw[l], w.post_raw[l]))))
                    g.append(("the receiver's list is consistent", Implies(And(c, is_tgt), x_eq(w.post_raw[l], w.post_raw[2]))))
    return g


def check(c):
    if c.thorough:
        combos = [(no, ns, nt, ai, 1, (0, 2), 1, True, 3) for no in (1, 2, 3) for ns in (0, 1, 2) for nt in (0, 1, 2) if no + ns + nt <= 4 for ai in range(no)]
    else:
        combos = [(3, 0, 0, 1, 1, (0, 2), 0, True, 3), (2, 1, 0, 0, 1, (1, 2), 1, True, 0), (1, 2, 1, 0, 0, (2, 2), 2, True, 1)]
    c.bounds.append("accounts with any 2-letter names (any may coincide), position counts (owner,sender,target) %s; every index (u32), time and expiry value; "
                    "each kind of message that touches position ownership" % sorted({x[:3] for x in combos}))
    tasks = []
    for kind in range(10):
        for cb in combos:
            def t(c, kind=kind, cb=cb):
                no, ns, nt, ai, na, aks, gk, gh, ek = cb
                ps = c.scenario("%s %s" % (KINDS[kind], cb), "root_nft", scen_inputs(kind, no, ns, nt, ai, na, aks, gk, gh, ek), post)
                c.reachable(KINDS[kind], ps, lambda o: o[0][0] == "ok")
            tasks.append(t)
    c.par(tasks)


if __name__ == "__main__":
    main("C04", check)
