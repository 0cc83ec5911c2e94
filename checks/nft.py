"""Specification shared by C03 (authorization) and C04 (position lists) over root_nft."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from lib import *

KINDS = ["Approve", "Revoke", "ApproveAll", "RevokeAll", "TransferNft", "SendNft", "Burn", "TransferPosition", "RemovePosition", "ClaimFee"]


def conc_list(l):
    n, es = l
    return [e[1] for e in es if e is not None]


def wf(l):
    """the list occupies exactly the indices 0..len-1"""
    n, es = l
    return And(*[x_eq(e is not None, lt(i, n)) for i, e in enumerate(es)], le(n, len(es)))


def perm(es, exp):
    """the entries are a permutation of exp (whose elements have pairwise distinct liquidity)"""
    if len(es) != len(exp):
        return False
    return And(*[Or(*[x_eq(p, e) for p in es]) if es else False for e in exp])


def core(p):
    return (p[0], p[1], p[2], p[8])


def cores(es):
    return [core(p) for p in es]


class W:
    def __init__(self, inp, out):
        (self.kind, self.owner, self.sender, self.target, self.no, self.ns, self.nt, self.idx, self.ai, self.na,
         self.a0, self.a0k, self.a0v, self.a1, self.a1k, self.a1v, self.gop, self.ghas, self.gkind, self.gval,
         self.ekind, self.eval, self.height, self.nanos) = inp
        self.r, pre, post, self.ops, self.ops2 = out
        self.ok = self.r[0] == "ok"
        self.pre_raw, self.post_raw = pre, post
        self.pre = [conc_list(x) for x in pre]
        self.post = [conc_list(x) for x in post]
        self.os = seq_eq(self.owner, self.sender)
        self.ot = seq_eq(self.owner, self.target)
        self.st = seq_eq(self.sender, self.target)

    def expired(self, e):
        k, v = e
        return Or(And(eq(k, 0), ge(self.height, v)), And(eq(k, 1), ge(self.nanos, v)))

    def live(self, e):
        return False if e is None else Not(self.expired(e[1]))

    def op_auth(self):
        """sender is the owner or an unexpired operator of the owner"""
        return Or(self.os, self.live(self.ops[0]))

    def send_auth(self, p):
        return Or(self.op_auth(), *[And(seq_eq(a[0], self.sender), Not(self.expired((a[1], a[2])))) for a in p[8]])

    def new_exp(self):
        return (self.ekind, self.eval) if self.ekind in (0, 1) else (2, 0)

    def cases(self, lst):
        """(condition, index, position) for the addressed token"""
        return [(eq(self.idx, i), i, p) for i, p in enumerate(lst)]

    def unchanged_lists(self):
        return And(*[x_eq(a, b) for a, b in zip(self.pre_raw, self.post_raw)])


def scen_inputs(kind, no, ns, nt, ai, na, aks, gk, ghas, ek, ln=2):
    return [kind, sbytes("own", ln), sbytes("snd", ln), sbytes("tgt", ln), no, ns, nt, ivar("idx", 0, U32), ai, na,
            sbytes("a0", ln), aks[0], ivar("a0v", 0, U64) if aks[0] != 2 else 0, sbytes("a1", ln), aks[1], ivar("a1v", 0, U64) if aks[1] != 2 else 0,
            sbytes("gop", ln), ghas, gk, ivar("gv", 0, U64) if gk != 2 else 0, ek, ivar("ev", 0, U64), ivar("h", 0, U64), ivar("t", 0, U64)]
