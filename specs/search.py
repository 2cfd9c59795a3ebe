"""C12: searching forms.  The tree lies in a part of memory (objects below N0) that does not change; for a set q of form types
  FC(q,o) is the number of forms found in o, FS(q,o,i) the number found in its first i members, FR(q,o,k) the k-th form found."""
from build import *

Int = z3.IntSort(); QSET = z3.ArraySort(Int, z3.BoolSort())
FC = z3.Function('FC', QSET, Int, Int); FS = z3.Function('FSM', QSET, Int, Int, Int); FR = z3.Function('FR', QSET, Int, Int, Int)
QA = z3.Function('QA', Int, Int, QSET)      # the form types in an array of given length
WT = z3.Function('WT', Int, Int, Int, Int)  # where in that array
N0 = z3.Int('N0')
MANY = 2**29
NOSET = z3.K(Int, z3.BoolVal(False))

class SearchLayer(BuildLayer):
    name = 'search'; no_oom = ('IFF_searchFormsFromArray', 'IFF_searchForms'); memcpy_heaps = ('PO',)
    def __init__(self):
        super().__init__(); self.T = Heap({hp: z3.Const(hp + '_tree', HEAP) for hp in ALLHP})
    def lemmas(self): return []
def tree_agrees(L, st):
    return z3.And(st.g['nxt'] >= N0, N0 > HEAP0, *[forall([o_], z3.Implies(o_ < N0, z3.Select(st.h[hp], o_) == z3.Select(L.T.h[hp], o_)), z3.Select(st.h[hp], o_)) for hp in ('PO', 'M32')])
def unfold(T, q, o):
    """definitions at chunk o, and well-formedness there"""
    kid = T.child(o, i_); grp = isin(T.id(o), (FORM, CAT, LIST)); hit = z3.And(T.id(o) == FORM, z3.Select(q, T.gt(o)))
    return [FC(q, o) == z3.If(hit, 1, z3.If(grp, FS(q, o, T.n(o)), 0)), z3.Implies(hit, FR(q, o, 0) == o), FS(q, o, 0) == 0, FC(q, o) >= 0, FC(q, o) < MANY, T.n(o) >= 0, T.n(o) < 2**32, T.sel('PO', o, CH) < N0, z3.Implies(z3.And(grp, T.n(o) > 0), T.sel('PO', o, CH) > HEAP0),
            *[z3.And(T.u32(o, f) >= 0, T.u32(o, f) < 2**32) for f in (ID, GT)],
            z3.Implies(grp, z3.ForAll([i_], z3.Implies(z3.And(i_ >= 0, i_ < T.n(o)), z3.And(WF(kid), kid > HEAP0, kid < N0)), patterns=[kid])),
            z3.ForAll([i_], z3.Implies(z3.And(grp, z3.Not(hit), i_ >= 0, i_ <= T.n(o)), z3.And(0 <= FS(q, o, i_), FS(q, o, i_) <= FS(q, o, T.n(o)))), patterns=[FS(q, o, i_)])]
def step(T, q, o, it):
    kid = T.child(o, it); hit = z3.And(T.id(o) == FORM, z3.Select(q, T.gt(o)))
    return [FS(q, o, it + 1) == FS(q, o, it) + FC(q, kid), FC(q, kid) >= 0, z3.Implies(z3.Not(hit), forall([k_], z3.Implies(z3.And(k_ >= FS(q, o, it), k_ < FS(q, o, it + 1)), FR(q, o, k_) == FR(q, kid, k_ - FS(q, o, it))), FR(q, o, k_)))]
def array_def(T, f, n):
    q = QA(f, n); t = z3.Int('t!')
    return [forall([t], z3.Implies(z3.Select(q, t), z3.And(WT(f, n, t) >= 0, WT(f, n, t) < n, T.u32(f, 4 * WT(f, n, t)) == t)), z3.Select(q, t)),
            forall([i_], z3.Implies(z3.And(i_ >= 0, i_ < n), z3.Select(q, T.u32(f, 4 * i_))), T.u32(f, 4 * i_))]
def result(c, st, q, o, arr): return forall([k_], z3.Implies(z3.And(k_ >= 0, k_ < FC(q, o)), H(st).sel('PO', arr, 8 * k_) == FR(q, o, k_)), FR(q, o, k_), H(st).sel('PO', arr, 8 * k_))
def only(c, st, arr, *freed):
    """arr (if any) is allocated, freed released, otherwise nothing"""
    return forall([o_], z3.Select(st.g['live'], o_) == z3.If(z3.And(o_ == Z(arr), o_ != 0), 1, z3.If(z3.Or(False, *[z3.And(o_ == Z(x), o_ != 0) for x in freed]), 0, z3.Select(c.old.g['live'], o_))), z3.Select(st.g['live'], o_))
def new(c, st, o): return And(le(c.old.g['nxt'], o), lt(o, st.g['nxt']))
class Search(Contract):
    modifies = ALLHP + ('nxt', 'live', ('out', 3)); out = {3: 'i32'}; lenk = 3
    def q(s, c):
        f, n = c.a[1], c.a[2]
        if c.eng.is_cell(f):
            if not isc(n.e): raise Unsupported('array of form types of unknown length')
            r = NOSET
            for i in range(n.e): r = z3.Store(r, Z(c.eng.load(c.old, PV(f.obj, f.off + 4*i), ir.INT(32), check=False).u()), z3.BoolVal(True))
            return r
        return QA(c.o(1), c.u(2))
    def array(s, c):
        return [] if c.eng.is_cell(c.a[1]) else [('an array of form types', And(c.o(1) < N0, Or(c.o(1) > HEAP0, c.u(2) == 0)))]
    def requires(s, c):
        return [('the tree is in memory', tree_agrees(s.layer, c.old)), ('a well-formed tree', WF(c.o(0))), ('a chunk', And(c.o(0) > HEAP0, c.o(0) < N0)),
                ('nothing beyond is allocated', forall([o_], z3.Implies(o_ >= c.old.g['nxt'], live(c.old, o_) == 0), live(c.old, o_)))] + s.array(c)
    def facts(s, c):
        L = s.layer; return unfold(L.T, s.q(c), c.o(0)) + ([] if c.eng.is_cell(c.a[1]) else array_def(L.T, c.o(1), c.u(2)))
    def ensures(s, c):
        q, o = s.q(c), c.o(0); n = FC(q, o)
        return [('the number of forms found', eq(c.new.loc(c.a[s.lenk]).u(), n)), ('the forms found, in document order', result(c, c.new, q, o, c.ro)), ('a new array, or none', Or(c.ro == 0, new(c, c.new, c.ro))), ('an array with room for the forms', Imp(n > 0, And(c.ro != 0, SZ(c.ro) >= 8 * n))),
                ('nothing else is left allocated or released', only(c, c.new, c.ro)), ('objects only grow', c.new.g['nxt'] >= c.old.g['nxt']),
                ('nothing beyond is allocated', forall([o_], z3.Implies(o_ >= c.new.g['nxt'], live(c.new, o_) == 0), live(c.new, o_))),
                ('number of forms', And(n >= 0, n < MANY))] + frames(c, c.new, ('PO', 'M8', 'M16', 'M32', 'M64'))
    def loop_facts(s, c, L): return step(s.layer.T, s.q(c), c.o(0), L.it) + unfold(s.layer.T, s.q(c), s.layer.T.child(c.o(0), L.it))[3:5]
    def hints(s, c, L):
        T, q, o, st = s.layer.T, s.q(c), c.o(0), L.st; found = FS(q, o, L.it)
        out = [('members within', L.it <= T.n(o)), ('form types within', L.it <= c.u(2) if s.lenk == 3 else False), ('no earlier form type is the one', forall([i_], z3.Implies(z3.And(i_ >= 0, i_ < L.it), T.u32(c.o(1), 4 * i_) != T.gt(o)), T.u32(c.o(1), 4 * i_)) if s.lenk == 3 else False)]
        for hp in sorted(L.mod_heap): out.append((f'existing objects unchanged ({hp})', frame(c, st, hp)))
        out.append(('objects only grow', st.g['nxt'] >= c.old.g['nxt'])); out.append(('nothing beyond is allocated', forall([o_], z3.Implies(o_ >= st.g['nxt'], live(st, o_) == 0), live(st, o_))))
        for n, v in L.phi.items():
            if isinstance(v, PV):
                out += [(f'{n}: the forms found so far', forall([k_], z3.Implies(z3.And(k_ >= 0, k_ < found), H(st).sel('PO', v.obj, 8 * k_) == FR(q, o, k_)), FR(q, o, k_), H(st).sel('PO', v.obj, 8 * k_))),
                        (f'{n}: a new array, or none', Or(eq(v.obj, 0), new(c, st, v.obj))), (f'{n}: an array if there are forms', Imp(found > 0, Not(eq(v.obj, 0)))), (f'{n}: room for the forms found so far', Imp(found > 0, SZ(Z(v.obj)) >= 8 * found)), (f'{n}: nothing else is allocated', only(c, st, v.obj))]
        for key, (v0, v1) in L.cell.items():
            if isinstance(v0, IV) and isinstance(v1, IV): out.append((f'{key}: number found so far', eq(v1.u(), found)))
        return out
class FromArray(Search): fn = 'IFF_searchFormsFromArray'
class Forms(Search):
    fn = 'IFF_searchForms'; lenk = 2; out = {2: 'i32'}; modifies = ALLHP + ('nxt', 'live', ('out', 2))
    def q(s, c): return z3.Store(NOSET, c.u(1), z3.BoolVal(True))
    def array(s, c): return []
    def facts(s, c): return unfold(s.layer.T, s.q(c), c.o(0))
class Merge(Contract):
    fn = 'IFF_mergeFormArray'; out = {1: 'i32'}; modifies = ALLHP + ('nxt', 'live', ('out', 1))
    def requires(s, c):
        t, src = c.o(0), c.o(2); nx = c.old.g['nxt']; n = c.old.loc(c.a[1]).u(); one = lambda x: Or(x == 0, And(x > HEAP0, x < nx, live(c.old, x) == 1))
        return [('two arrays', And(one(t), one(src), Or(t == 0, t != src))), ('numbers of forms', And(n < MANY, c.u(3) < MANY, lt(add(n, c.u(3)), MANY))), ('arrays where there are forms', And(Imp(n > 0, And(t != 0, SZ(t) >= 8 * n)), Imp(c.u(3) > 0, And(src != 0, SZ(src) >= 8 * c.u(3))))),
                ('nothing beyond is allocated', forall([o_], z3.Implies(o_ >= nx, live(c.old, o_) == 0), live(c.old, o_)))]
    def content(s, c, st, arr, upto):
        n = c.old.loc(c.a[1]).u(); T = H(c.old)
        return forall([k_], z3.Implies(z3.And(k_ >= 0, k_ < Z(upto)), H(st).sel('PO', arr, 8 * k_) == z3.If(k_ < n, T.sel('PO', c.o(0), 8 * k_), T.sel('PO', c.o(2), 8 * (k_ - n)))), H(st).sel('PO', arr, 8 * k_))
    def ensures(s, c):
        n = c.old.loc(c.a[1]).u(); m = add(n, c.u(3))
        return [('the number of forms of both', eq(c.new.loc(c.a[1]).u(), m)), ('the forms of the one followed by those of the other', s.content(c, c.new, c.ro, m)), ('room for all forms', Imp(Z(m) > 0, SZ(c.ro) >= 8 * Z(m))), ('a new array, the one extended, or none', Or(And(c.ro == 0, Z(m) == 0), And(c.ro == c.o(0), c.ro != 0), new(c, c.new, c.ro))),
                ('the old array is released, nothing else', only(c, c.new, c.ro, c.o(0))), ('objects only grow', c.new.g['nxt'] >= c.old.g['nxt']),
                ('nothing beyond is allocated', forall([o_], z3.Implies(o_ >= c.new.g['nxt'], live(c.new, o_) == 0), live(c.new, o_)))] + frames(c, c.new)
    def hints(s, c, L):
        n = c.old.loc(c.a[1]).u(); st = L.st; out = [('forms within', L.it <= c.u(3))]
        for hp in sorted(L.mod_heap): out.append((f'existing objects unchanged ({hp})', frame(c, st, hp)))
        for nm, v in list(L.phi.items()) + [(n_, x) for n_, x in L.pre_env.items() if isinstance(x, PV) and n_ not in L.phi]:
            if isinstance(v, PV) and not c.eng.is_cell(v): out.append((f'{nm}: the forms so far', s.content(c, st, v.obj, add(n, L.it))))
        return out
def search_layer():
    L = SearchLayer()
    for k in (Merge, FromArray, Forms): L.add(k)
    return L
