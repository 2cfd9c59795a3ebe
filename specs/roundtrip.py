"""C06: writing a conforming tree and reading the bytes back gives an equal tree.

Lemmas over the contracts of the writer (WROTE), the check (CONF), the reader (OKC, END, mirror) and the comparison (EQ): structural
induction over the tree with, at each group, an induction over its members.  f is the stream written to (contents W), g the one
read from (contents D, length LEN): D(g,k) = W(f,k).  The induction hypotheses are about the members of the chunk at hand."""
import write as Wr, read as Rd, check as Ch, cmp as Cm
from write import WROTE, WL, PP, CP, wrote_def, layout_def, layout_step
from read import OKC, END, NMEM, MP, BP, NPR, MPOS, PPOS, IDF, NF, GTF, parse_def, member_step, mirror, src
from sizes import *
from cmp import EQ
from tree import *
from stdio import *

Int = z3.IntSort()
f, g, o, p, i, q, x, lo = z3.Ints('f g o p i q x lo')
class RoundLayer(Layer):
    name = 'round'
    def lemmas(self): return lemmas()
def A(*a): return z3.And(*[z3.BoolVal(v) if isinstance(v, bool) else v for v in a])
def lemmas():
    heap = {hp: z3.Const(hp + '_0', HEAP) for hp in ('PO', 'M8', 'M16', 'M32', 'M64')}; T = Heap(heap); Y = Cm.CmpLayer(); Y.T = T
    k_, p_, x_ = z3.Ints('k! p! x!')
    grp, lst = isin(T.id(o), GROUPS), T.id(o) == LIST
    np, N = z3.Ints('np N'); n = T.n(o)
    tree = A(np == z3.If(lst, T.np(o), 0), N == np + n, wf_unfold(T, o), WF(o), *ws_unfold(T, o), WS(o), Ch.conf_def(T, o), CONF_(o), *wrote_def(T, f, p, o))
    kid, pr = T.child(o, k_), T.prop(o, k_)
    over = lambda w, m, P: z3.ForAll([k_], z3.Implies(z3.And(k_ >= 0, k_ < m), P), patterns=[w])
    both = lambda P: A(z3.Implies(grp, over(kid, n, P(kid))), z3.Implies(lst, over(pr, T.np(o), P(pr))))
    L = []
    def lemma(name, hyp, goal): L.append((name, z3.Implies(A(*hyp), goal)))
    # --- a conforming chunk is written without filler
    length = lambda m: WL(m) == psz(T, m)
    ihl = both(length)
    stepl = [A(*layout_step(T, o, i), *sum_step(T, o, i), i >= 0)]
    offs = lambda i: z3.Implies(i <= T.np(o), PP(o, i) == 12 + SUMP(o, i))
    offc = lambda i: z3.Implies(i <= n, CP(o, i) == CP(o, 0) + SUMC(o, i))
    lemma('offsets of shared properties are sums of sizes (base)', [tree, lst], offs(I(0)))
    lemma('offsets of shared properties are sums of sizes (step)', [tree, lst, ihl, offs(i), i < T.np(o)] + stepl, offs(i + 1))
    lemma('offsets of members are sums of sizes (base)', [tree, grp], offc(I(0)))
    lemma('offsets of members are sums of sizes (step)', [tree, grp, ihl, offc(i), i < n] + stepl, offc(i + 1))
    lemma('the encoding of a conforming chunk is as long as its size says', [tree, z3.Implies(lst, offs(T.np(o))), z3.Implies(grp, offc(n))], length(o))
    alls = z3.ForAll([k_], z3.Implies(z3.And(k_ >= 0, k_ <= T.np(o)), PP(o, k_) == 12 + SUMP(o, k_)), patterns=[PP(o, k_)])
    allc = z3.ForAll([k_], z3.Implies(z3.And(k_ >= 0, k_ <= n), CP(o, k_) == CP(o, 0) + SUMC(o, k_)), patterns=[CP(o, k_)])
    layout = A(z3.Implies(lst, alls), z3.Implies(grp, allc), ihl, length(o))
    # --- what was written can be read
    same = z3.ForAll([k_], z3.And(Dc(g, k_) == Wc(f, k_), Dc(g, k_) >= 0, Dc(g, k_) < 256), patterns=[Dc(g, k_)])
    def readable(m, at): return A(OKC(g, at), END(g, at) == at + psz(T, m), NF(g, at) == T.size(m), IDF(g, at) == T.id(m))
    def R(m): return z3.ForAll([p_], z3.Implies(z3.And(p_ >= 0, WROTE(f, p_, m), p_ + psz(T, m) <= LEN(g)), readable(m, p_)), patterns=[WROTE(f, p_, m)])
    here = [tree, layout, same, f > 0, g > 0, p >= 0, WROTE(f, p, o), p + psz(T, o) <= LEN(g)]
    P = A(*parse_def(g, p))
    step = [A(*member_step(g, p, i)), i >= 0, i < N]
    sums = lambda k: A(*sum_step(T, o, k))
    bytes4 = lambda v: z3.Implies(z3.And(v >= 0, v < 2**32), v == sum(Z(IV(32, v, 0, 2**32-1).byte(3 - j)) * 256**(3 - j) for j in range(4)))
    v = z3.Int('v'); lemma('a number is made up of its bytes', [], bytes4(v))
    lemma('ID and size are read as written', here + [P] + [bytes4(u) for u in (T.id(o), T.u32(o, SIZE), T.gt(o))], A(IDF(g, p) == T.id(o), NF(g, p) == T.size(o), z3.Implies(grp, GTF(g, p) == T.gt(o))))
    head = A(IDF(g, p) == T.id(o), NF(g, p) == T.size(o), z3.Implies(grp, GTF(g, p) == T.gt(o)))
    where = lambda i: p + z3.If(i < np, PP(o, i), CP(o, i - np))
    ih = both(R)
    member = lambda i: z3.If(i < np, T.prop(o, i), T.child(o, i - np))
    at = lambda i: A(MP(g, p, i) == where(i), BP(g, p, i) == MP(g, p, i) - p - 8, NPR(g, p, i) == z3.If(i < np, i, np))
    good = lambda i: A(readable(member(i), where(i)), z3.If(i < np, PPOS(g, p, i) == where(i), MPOS(g, p, i - np) == where(i)), BP(g, p, i) < T.size(o))
    lemma('the first member is where it was written', here + [P, head, grp], at(I(0)))
    side = lambda m: A(T.size(m) >= 0, z3.Implies(lst, z3.Implies(i >= np, T.id(m) != PROP)), z3.Implies(i < np, T.id(m) == PROP))
    for nm, m, w, c, k in (('shared property', T.prop(o, i), p + PP(o, i), i < np, i), ('member', T.child(o, i - np), p + CP(o, i - np), i >= np, i - np)):
        lemma(f'a {nm} can be read where it was written', here + [P, head, grp, ih, at(i), c, where(i) == w, sums(k), A(*layout_step(T, o, k))] + step, A(readable(m, w), WL(m) == psz(T, m)))
        lemma(f'a {nm} has an ID that is read as such', [tree, wf_unfold(T, m), i >= 0, i < N, grp, c], side(m))
        lemma(f'the next one follows a {nm}', here + [P, head, grp, at(i), c, where(i) == w, sums(k), A(*layout_step(T, o, k)), readable(m, w), WL(m) == psz(T, m), side(m)] + step, A(good(i), at(i + 1)))
    allat = z3.ForAll([k_], z3.Implies(z3.And(k_ >= 0, k_ <= N), at(k_)), patterns=[MP(g, p, k_), BP(g, p, k_)] if False else [BP(g, p, k_)])
    allgood = z3.ForAll([k_], z3.Implies(z3.And(k_ >= 0, k_ < N), good(k_)), patterns=[MP(g, p, k_)])
    allat2 = z3.ForAll([k_], z3.Implies(z3.And(k_ >= 0, k_ <= N), at(k_)), patterns=[MP(g, p, k_)])
    allgood2 = z3.ForAll([k_], z3.Implies(z3.And(k_ >= 0, k_ < N), good(k_)), patterns=[BP(g, p, k_)])
    members = A(allat, allgood, allat2, allgood2)
    lemma('as many members are read as were written', here + [P, head, grp, members], NMEM(g, p) == N)
    lemma('a conforming chunk that was written can be read, to its last byte', here + [P, head, z3.Implies(grp, A(members, NMEM(g, p) == N))], readable(o, p))
    # --- and what is read is equal
    class St: pass
    st = St(); st.h = heap; st.g = dict(nxt=z3.Int('nxt'), src=z3.Const('src', ROW))
    new = lambda x, p: A(x >= lo, x < st.g['nxt'], src(st, x) == p)
    def E(m): return z3.ForAll([p_, x_], z3.Implies(A(p_ >= 0, WROTE(f, p_, m), p_ + psz(T, m) <= LEN(g), new(x_, p_)), EQ(m, x_)), patterns=[z3.MultiPattern(WROTE(f, p_, m), EQ(m, x_))])
    read = [A(*[q for _, q in mirror(None, st, g, lo)]), new(x, p), lo > HEAP0]
    whole = [head, z3.Implies(grp, A(members, NMEM(g, p) == N))]
    eq = [A(*Y.eqdefs(o, x))]
    lemma('type and number of members are equal', here + [P] + whole + read + [grp], A(T.id(x) == T.id(o), T.size(x) == T.size(o), T.gt(x) == T.gt(o), T.n(x) == n, z3.Implies(lst, T.np(x) == T.np(o))))
    lemma('data bytes are equal', here + [P] + whole + read + eq + [z3.Not(grp)], EQ(o, x))
    inst = lambda k: z3.substitute(z3.Implies(z3.And(i >= 0, i < N), A(good(i), at(i))), (i, k))     # instance of `members`
    lemma('members are equal', here + [P, head, NMEM(g, p) == N, inst(np + i)] + read + [grp, both(E), sums(i), T.id(x) == T.id(o), T.n(x) == n, i >= 0, i < n], EQ(T.child(o, i), T.child(x, i)))
    lemma('shared properties are equal', here + [P, head, NMEM(g, p) == N, inst(i)] + read + [lst, both(E), sums(i), T.id(x) == T.id(o), T.np(x) == T.np(o), i >= 0, i < T.np(o)], EQ(T.prop(o, i), T.prop(x, i)))
    lemma('groups with equal members are equal', [wf_unfold(T, o), wf_unfold(T, x), grp, T.id(x) == T.id(o), T.size(x) == T.size(o), T.gt(x) == T.gt(o), T.n(x) == n, z3.Implies(lst, A(T.np(x) == T.np(o), Y.prefix(o, x, T.np(o), T.prop))), Y.prefix(o, x, n, T.child)] + eq, EQ(o, x))
    # --- the postconditions of writing, reading and comparing put together
    r = z3.Int('r'); trouble, equal = z3.Bools('trouble equal'); pos = z3.Int('pos')
    lemma('write, read, compare', [LEN(g) == WL(o), length(o), readable(o, I(0)), z3.Implies(r == 0, z3.Or(z3.Not(OKC(g, 0)), trouble)), z3.Implies(r != 0, A(OKC(g, 0), pos == END(g, 0), new(r, I(0)))),
          z3.Implies(new(r, I(0)), EQ(o, r)), equal == EQ(o, r), z3.Not(trouble)], A(r != 0, pos == LEN(g), equal))
    return L
from check import CONF as CONF_
def round_layer(): return RoundLayer()
