from nft import *


def post(inp, out):
    if out == ("panic",):
        return []
    w = W(inp, out)
    k = w.kind
    O = w.pre[0]
    own = w.cases(O)
    snd = w.cases(w.pre[1])
    g = []
    if not w.ok:
        exp_ok = Not(w.expired(w.new_exp()))
        if k == 0:
            g.append(("the owner and its operators can approve", And(*[Not(And(c, w.op_auth(), exp_ok)) for c, i, p in own])))
        elif k == 1:
            g.append(("the owner and its operators can revoke", And(*[Not(And(c, w.op_auth())) for c, i, p in own])))
        elif k == 2:
            g.append(("anyone can name an operator", Not(exp_ok)))
        elif k == 3:
            g.append(("anyone can revoke an operator", False))
        elif k in (4, 5, 6):
            g.append(("an authorized account can move the token", And(*[Not(And(c, w.send_auth(p))) for c, i, p in own])))
        elif k == 7:
            g.append(("the owner can transfer", And(*[Not(And(c, Not(eq(w.target[-1], ord("n"))))) for c, i, p in snd])))
        else:
            g.append(("the owner can act on its position", And(*[Not(c) for c, i, p in snd])))
        return g
    msgs = w.r[1]
    same_ops = x_eq(w.ops, w.ops2)
    if k in (0, 1, 4, 5, 6):
        g.append(("the token exists", Or(*[c for c, i, p in own]) if own else False))
    if k in (7, 8, 9):
        g.append(("the sender owns the position", Or(*[c for c, i, p in snd]) if snd else False))
    if k in (0, 1):
        g.append(("only the owner or an unexpired operator changes approvals", w.op_auth()))
        g.append(("no funds move", len(msgs) == 0))
        ne = w.new_exp()
        if k == 0:
            g.append(("an already expired approval is refused", Not(w.expired(ne))))
        for c, i, p in own:
            alts = []
            q = p[8]
            # approvals of other spenders are kept in order, the spender's own ones are replaced
            for keep in range(1 << len(q)):
                kc = And(*[Not(seq_eq(a[0], w.target)) if keep >> j & 1 else seq_eq(a[0], w.target) for j, a in enumerate(q)])
                exp = [a for j, a in enumerate(q) if keep >> j & 1] + ([(w.target, ne[0], ne[1])] if k == 0 else [])
                alts.append(And(kc, perm_apps(w, i, exp)))
            g.append(("exactly the spender's approval of that token changes", Implies(c, Or(*alts))))
        g.append(("operators unchanged", same_ops))
    elif k in (2, 3):
        ne = w.new_exp()
        if k == 2:
            g.append(("an already expired operator grant is refused", Not(w.expired(ne))))
        want = ("some", ne) if k == 2 else None
        g.append(("the sender's operator grant is set exactly", x_eq(w.ops2[2], want)))
        # pairs (owner,sender) (owner,target) (owner,gop): changed only when equal to (sender,target)
        for j, other in ((0, w.sender), (1, w.target), (3, w.gop)):
            hit = And(w.os, seq_eq(other, w.target))
            g.append(("no other operator grant changes", Or(And(hit, x_eq(w.ops2[j], want)), And(Not(hit), x_eq(w.ops2[j], w.ops[j])))))
        g.append(("positions unchanged", w.unchanged_lists()))
        g.append(("no funds move", len(msgs) == 0))
    else:
        g.append(("operators unchanged", same_ops))
        if k in (4, 5, 6):
            for c, i, p in own:
                g.append(("only the owner, an unexpired approved spender or an unexpired operator moves a token", Implies(c, w.send_auth(p))))
        if k in (4, 5, 7):
            # the moved position starts without approvals at its new owner
            T2 = w.post[2]
            for c, i, p in (own if k != 7 else snd):
                clean = Or(*[And(x_eq(q[0], p[0]), len(q[8]) == 0) for q in T2]) if T2 else False
                g.append(("transfer clears the approvals", Implies(c, clean)))
        if k in (4, 7):
            g.append(("no funds move", len(msgs) == 0))
        if k == 5:
            g.append(("SendNft calls exactly the receiving contract", And(len(msgs) == 1, x_eq(msgs[0][1], w.target)) if len(msgs) == 1 else False))
        if k in (6, 8, 9):
            who = w.owner if k == 6 else w.sender
            for m in msgs:
                g.append(("proceeds go to the position's owner", seq_eq(m[3], who)))
        if k in (6, 8):
            g.append(("the proceeds are paid out", len(msgs) == 2))
    return g


def perm_apps(w, i, exp):
    n, es = w.post_raw[0]
    if es[i] is None:
        return False
    got = es[i][1][8]
    if len(got) != len(exp):
        return False
    if got == exp:
        return True
    return And(*[Or(*[x_eq(a, e) for a in got]) for e in exp], *[Or(*[x_eq(a, e) for e in exp]) for a in got])


def check(c):
    if c.thorough:
        combos = [(no, ns, nt, ai, na, aks, gk, gh, ek) for (no, ns, nt) in ((1, 0, 0), (2, 1, 0), (1, 1, 1), (2, 0, 1)) for ai in range(no)
                  for (na, aks) in ((1, (0, 2)), (1, (1, 2)), (1, (2, 2)), (2, (0, 1))) for (gk, gh) in ((0, True), (1, True), (2, True), (0, False)) for ek in (0, 1, 3)]
        combos = [x for j, x in enumerate(combos) if j % 3 == 0 or x[0] == 1]
    else:
        combos = [(2, 1, 0, 0, 1, (0, 2), 1, True, 1), (1, 0, 1, 0, 2, (1, 2), 0, True, 0), (1, 1, 0, 0, 1, (2, 2), 2, True, 3)]
    c.bounds.append("owner, sender, target, approved spenders and operator: any 2-letter names (any may coincide); up to 3 positions over 3 accounts, "
                    "up to 2 approvals and one operator grant of each expiration kind; every index, height, time and expiry value (u32/u64)")
    tasks = []
    for kind in range(10):
        for cb in combos:
            def t(c, kind=kind, cb=cb):
                no, ns, nt, ai, na, aks, gk, gh, ek = cb
                ps = c.scenario("%s %s" % (KINDS[kind], cb), "root_nft", scen_inputs(kind, no, ns, nt, ai, na, aks, gk, gh, ek), post)
                c.reachable(KINDS[kind], ps, lambda o: o[0][0] == "ok")
            tasks.append(t)
    c.par(tasks)


if __name__ == "__main__":
    main("C03", check)
