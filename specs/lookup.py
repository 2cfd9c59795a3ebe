"""C13, C14: member and shared property lookup."""
from tree import *

FMI = z3.Function('FMI', z3.IntSort(), z3.IntSort(), z3.IntSort())      # index of the first member with an ID (or the number of members)
FPI = z3.Function('FPI', z3.IntSort(), z3.IntSort(), z3.IntSort())      # index of the first shared property chunk for a form type
FM = z3.Function('FM', z3.IntSort(), z3.IntSort(), z3.IntSort())        # first member with an ID, or NULL
FPR = z3.Function('FPR', z3.IntSort(), z3.IntSort(), z3.IntSort())      # first shared property chunk for a form type, or NULL
SP = z3.Function('SP', z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.IntSort())   # shared property seen from a chunk
i_ = z3.Int('i!')
def none_before(T, o, n, child, key, v): return z3.ForAll([i_], z3.Implies(z3.And(i_ >= 0, i_ < Z(n)), key(child(o, i_)) != v), patterns=[child(o, i_)])
def first_def(T, o, v):
    k = FMI(o, v); return [k >= 0, k <= T.n(o), none_before(T, o, k, T.child, T.id, v), z3.Implies(k < T.n(o), T.id(T.child(o, k)) == v), FM(o, v) == z3.If(k < T.n(o), T.child(o, k), 0)]
def firstprop_def(T, o, v):
    k = FPI(o, v); return [k >= 0, k <= T.np(o), none_before(T, o, k, T.prop, T.gt, v), z3.Implies(k < T.np(o), T.gt(T.prop(o, k)) == v), FPR(o, v) == z3.If(k < T.np(o), T.prop(o, k), 0)]
def at(T, p, ft, cid):
    """the answer of a search that has reached the enclosing group p"""
    q = FPR(p, ft); c = FM(q, cid)
    return z3.If(p == 0, 0, z3.If(T.id(p) != LIST, SP(p, ft, cid), z3.If(z3.Or(q == 0, c == 0), SP(p, ft, cid), c)))
def sp_def(T, o, ft, cid): return SP(o, ft, cid) == at(T, T.parent(o), ft, cid)

def members(T, o):
    """the members of a tree are chunks"""
    return [z3.ForAll([i_], z3.Implies(z3.And(i_ >= 0, i_ < n), f(o, i_) > 0), patterns=[f(o, i_)]) for n, f in ((T.n(o), T.child), (T.np(o), T.prop))]
def lens(T, o): return [T.n(o) >= 0, T.n(o) < 2**32, T.np(o) >= 0, T.np(o) < 2**32]
class First(PureContract):
    nonnull = (0,)
    def defs(s, c): return first_def(s.layer.T, c.o(0), c.u(1)) + lens(s.layer.T, c.o(0)) + members(s.layer.T, c.o(0))
    def ensures(s, c): return [('the first member with that ID, or NULL', c.ro == FM(c.o(0), c.u(1)))] + s.unchanged(c)
    def hints(s, c, L):
        T = s.layer.T; return [('no earlier member has the ID', none_before(T, c.o(0), L.it, T.child, T.id, c.u(1))), ('members within', L.it <= T.n(c.o(0)))]
class FirstProp(PureContract):
    fn = 'IFF_getPropFromList'; nonnull = (0,)
    def defs(s, c): return firstprop_def(s.layer.T, c.o(0), c.u(1)) + lens(s.layer.T, c.o(0)) + members(s.layer.T, c.o(0))
    def ensures(s, c): return [('the first shared property chunk for that form type, or NULL', c.ro == FPR(c.o(0), c.u(1)))] + s.unchanged(c)
    def hints(s, c, L):
        T = s.layer.T; return [('no earlier property chunk has the form type', none_before(T, c.o(0), L.it, T.prop, T.gt, c.u(1))), ('properties within', L.it <= T.np(c.o(0)))]
class Lookup(PureContract):
    fn = 'IFF_getChunkFromForm'; nonnull = (0,)
    def spec(s, c):
        T, o, cid = s.layer.T, c.o(0), c.u(1); m = FM(o, cid)
        return z3.If(m != 0, m, SP(o, T.gt(o), cid))
    def defs(s, c): return [sp_def(s.layer.T, c.o(0), s.layer.T.gt(c.o(0)), c.u(1))]
    def ensures(s, c): return [('own member, else the shared property of the nearest enclosing list that has it', c.ro == s.spec(c))] + s.unchanged(c)
    def loop_facts(s, c, L):
        T = s.layer.T; ft, cid = T.gt(c.o(0)), c.u(1)
        return [sp_def(T, Z(v.obj), ft, cid) for v in L.phi.values() if isinstance(v, PV)]
    def hints(s, c, L):
        T = s.layer.T; ft, cid = T.gt(c.o(0)), c.u(1)
        out = []
        for n, v in L.phi.items():
            w = L.phi_entry[n]
            if isinstance(v, PV) and isinstance(w, PV):
                out.append((f'{n}: the search continues with the same answer', SP(Z(v.obj), ft, cid) == SP(Z(w.obj), ft, cid)))
                v, w, whole = Z(v.obj), Z(w.obj), SP(c.o(0), ft, cid)
                out += [(f'{n}: the search continues in it with the same answer', at(T, v, ft, cid) == at(T, w, ft, cid)), (f'{n}: the search continues in it', at(T, v, ft, cid) == whole),
                        (f'{n}: the search continues from it', SP(v, ft, cid) == whole), (f'{n}: NULL or a list', z3.Or(v == 0, T.id(v) == LIST))]
                out.append((f'{n}: not NULL', Not(eq(v, 0))))
        return out
def lookup_layer():
    L = PureLayer(); L.name = 'lookup'
    for n in ('IFF_getDataChunkFromForm', 'IFF_getChunkFromProp'): L.add(type(n, (First,), dict(fn=n)))
    L.add(FirstProp); L.add(Lookup)
    return L

# ---------------------------------------------------------------- all members with an ID
CNT = z3.Function('CNT', z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.IntSort())   # how many of the first k members have the ID
class HeapLayer(Layer):
    """the heap changes; `old` is the heap on entry"""
    name = 'heap'
    def __init__(self):
        super().__init__(); self.libc = dict(BASE)
def frame(c, st, hp): 
    """objects that existed on entry are unchanged"""
    o = z3.Int('o!'); return forall([o], z3.Implies(o < c.old.g['nxt'], z3.Select(st.h[hp], o) == z3.Select(c.old.h[hp], o)), z3.Select(st.h[hp], o))
def frames(c, st, hps=('PO', 'M8', 'M16', 'M32', 'M64')):
    out = []
    for hp in hps:
        if not st.h[hp].eq(c.old.h[hp]): out.append((f'existing objects unchanged ({hp})', frame(c, st, hp)))
    return out
class All(Contract):
    fn = 'IFF_getChunksFromForm'; out = {2: 'i32'}; modifies = ['PO', 'nxt', ('out', 2)]
    def requires(s, c):
        T = H(c.old); o = c.o(0); arr = T.sel('PO', o, CH)
        return [('a form', And(o > HEAP0, o < c.old.g['nxt'], arr < c.old.g['nxt'])), ('members exist', z3.ForAll([i_], z3.Implies(z3.And(i_ >= 0, i_ < T.n(o)), T.child(o, i_) < c.old.g['nxt']), patterns=[T.child(o, i_)]))] + [('length', q) for q in lens(T, o)[:2]]
    def count(s, c, k): return CNT(c.o(0), c.u(1), Z(k))
    def match(s, c, k): T = H(c.old); return T.id(T.child(c.o(0), k)) == c.u(1)
    def facts(s, c): return [s.count(c, 0) == 0]
    def loop_facts(s, c, L): return [s.count(c, L.it + 1) == s.count(c, L.it) + z3.If(s.match(c, L.it), 1, 0)]
    def placed(s, c, st, arr, n):
        T = H(c.old); return forall([i_], z3.Implies(z3.And(i_ >= 0, i_ < Z(n), s.match(c, i_)), z3.And(s.count(c, i_) >= 0, s.count(c, i_) < s.count(c, n), H(st).sel('PO', arr, 8 * s.count(c, i_)) == T.child(c.o(0), i_))), T.child(c.o(0), i_))
    def ensures(s, c):
        T = H(c.old); n = T.n(c.o(0)); cnt = c.new.loc(c.a[2]).u()
        return [('the number of members with that ID', cnt == s.count(c, n)), ('every member with that ID is at its position', s.placed(c, c.new, c.ro, n)),
                ('NULL if there is none', Imp(s.count(c, n) == 0, c.ro == 0)), ('a new array with room for them', Or(c.ro == 0, And(c.ro >= c.old.g['nxt'], SZ(c.ro) >= 8 * s.count(c, n))))] + frames(c, c.new)
    def folds(s, c, L): return [('CNT', lambda k: s.count(c, k))]
    def hints(s, c, L):
        T = H(c.old); out = [('members within', L.it <= T.n(c.o(0))), ('count is not negative', And(s.count(c, L.it) >= 0, s.count(c, L.it) <= L.it))]
        for hp in sorted(L.mod_heap): out.append((f'existing objects unchanged ({hp})', frame(c, L.st, hp)))
        out.append(('objects only grow', L.st.g['nxt'] >= c.old.g['nxt']))
        for n, v in L.phi.items():
            if isinstance(v, PV):
                out += [(f'{n}: members so far are in place', s.placed(c, L.st, v.obj, L.it)), (f'{n}: NULL or new', Or(eq(v.obj, 0), And(le(c.old.g['nxt'], v.obj), lt(v.obj, L.st.g['nxt'])))),
                        (f'{n}: room for the members so far', Or(eq(v.obj, 0), SZ(Z(v.obj)) >= 8 * s.count(c, L.it))), (f'{n}: NULL exactly if nothing was found', Iff(eq(v.obj, 0), s.count(c, L.it) == 0))]
        for key, (v0, v1) in L.cell.items():
            if isinstance(v1, IV): out.append((f'{key}: number found so far', eq(v1.u(), s.count(c, L.it))))
        return out
def all_layer():
    L = HeapLayer(); L.name = 'all'; L.add(All); return L
