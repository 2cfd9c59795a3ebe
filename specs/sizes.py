"""Sizes of members as they are encoded: header, body and pad byte."""
from tree import *
SUMC = z3.Function('SUMC', z3.IntSort(), z3.IntSort(), z3.IntSort())     # padded sizes of the first k members
SUMP = z3.Function('SUMP', z3.IntSort(), z3.IntSort(), z3.IntSort())     # ... of the first k shared properties
def psz(T, o): return 8 + T.size(o) + T.size(o) % 2
def body_size(T, o): return 4 + SUMC(o, T.n(o)) + z3.If(T.id(o) == LIST, SUMP(o, T.np(o)), 0)
WS = z3.Function('WS', z3.IntSort(), z3.BoolSort())
k_ = z3.Int('k!')
def ws_unfold(T, o):
    """every node is non-negative and what its members add up to stays below 2 GiB"""
    o = Z(o); kid = T.child(o, k_); pr = T.prop(o, k_)
    mono = lambda S, n: z3.ForAll([k_], z3.Implies(z3.And(k_ >= 0, k_ <= n), z3.And(0 <= S(o, k_), S(o, k_) <= S(o, n))), patterns=[S(o, k_)])
    return [SUMC(o, 0) == 0, SUMP(o, 0) == 0,
            z3.Implies(z3.And(WS(o), isin(T.id(o), GROUPS)), z3.And(body_size(T, o) < 2**31, mono(SUMC, T.n(o)),
                z3.ForAll([k_], z3.Implies(z3.And(k_ >= 0, k_ < T.n(o)), WS(kid)), patterns=[kid]))),
            z3.Implies(z3.And(WS(o), T.id(o) == LIST), z3.And(mono(SUMP, T.np(o)), z3.ForAll([k_], z3.Implies(z3.And(k_ >= 0, k_ < T.np(o)), WS(pr)), patterns=[pr])))]
def sum_step(T, o, k): return [SUMC(o, k + 1) == SUMC(o, k) + psz(T, T.child(o, k)), SUMP(o, k + 1) == SUMP(o, k) + psz(T, T.prop(o, k))]
def sum_lemmas():
    """prefix sums of non-negative terms are monotone: induction step and base used for `mono`"""
    S = z3.Function('S', z3.IntSort(), z3.IntSort()); P = z3.Function('P', z3.IntSort(), z3.IntSort()); j, k = z3.Ints('j k')
    d = z3.And(S(0) == 0, S(k + 1) == S(k) + P(k), P(k) >= 0)
    return [('prefix sums are not negative (base)', z3.Implies(S(0) == 0, 0 <= S(0))),
            ('prefix sums are not negative (step)', z3.Implies(z3.And(d, k >= 0, 0 <= S(k)), 0 <= S(k + 1))),
            ('prefix sums are monotone (base)', z3.Implies(j == k, S(j) <= S(k))),
            ('prefix sums are monotone (step)', z3.Implies(z3.And(d, j <= k, S(j) <= S(k)), S(j) <= S(k + 1)))]
