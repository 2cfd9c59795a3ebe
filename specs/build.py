"""C11, C21, C23: constructing chunks and groups, adding members, keeping sizes consistent."""
from lookup import HeapLayer, forall, frame, frames, lens
from tree import *

ALLHP = ('PO', 'M8', 'M16', 'M32', 'M64')
o_, i_, k_ = z3.Int('o!'), z3.Int('i!'), z3.Int('k!')
SUMH = z3.Function('SUMH', HEAP, HEAP, z3.IntSort(), z3.IntSort(), z3.IntSort())     # padded sizes of the first k members, in a given heap
SUMPH = z3.Function('SUMPH', HEAP, HEAP, z3.IntSort(), z3.IntSort(), z3.IntSort())   # ... of the first k shared properties
def sumh(st, o, k): return SUMH(st.h['PO'], st.h['M32'], Z(o), Z(k))
def sumph(st, o, k): return SUMPH(st.h['PO'], st.h['M32'], Z(o), Z(k))
def pad(x): return 8 + x + x % 2
def step_facts(st, o, k):
    T = H(st); out = []
    for S, kid in ((sumh, T.child), (sumph, T.prop)):
        out += [S(st, o, 0) == 0, S(st, o, k + 1) == S(st, o, k) + pad(T.size(kid(o, k)))]
    return out
def others(c, st, hp, *rows):
    """rows of existing objects are unchanged, except those named"""
    return (f'existing objects unchanged ({hp})', forall([o_], z3.Implies(z3.And(o_ < c.old.g['nxt'], *[o_ != Z(r) for r in rows]), z3.Select(st.h[hp], o_) == z3.Select(c.old.h[hp], o_)), z3.Select(st.h[hp], o_)))
def row(st, hp, o): return z3.Select(st.h[hp], Z(o))
def stored(r, *fv):
    for f, v in fv: r = z3.Store(r, f, Z(v))
    return r
def enc(v): return z3.If(Z(v) < 0, Z(v) + 2**32, Z(v))
def live(st, o): return z3.Select(st.g['live'], Z(o))

class BuildLayer(HeapLayer):
    name = 'build'
    no_oom = ('IFF_setTextData',)        # known finding F5: the allocation is not checked there
    def __init__(self):
        super().__init__(); self.libc = dict(BASE); self.libc['malloc'] = self.h_malloc; self.libc['calloc'] = self.h_zalloc
    def init_state(self, eng):
        st = super().init_state(eng); st.g['live'] = fresh('live', ROW)
        st.assume(z3.ForAll([o_], z3.Implies(o_ >= st.g['nxt'], z3.Select(st.g['live'], o_) == 0), patterns=[z3.Select(st.g['live'], o_)]))
        return st
    def h_malloc(self, eng, st, a, ins):
        out = h_malloc(eng, st, a, ins)
        return out[:1] if eng.ctx and eng.ctx.con.fn in self.no_oom else out
    def h_zalloc(self, eng, st, a, ins):
        out = h_calloc(eng, st, a, ins)
        return out[:1] if eng.ctx and eng.ctx.con.fn in self.no_oom else out
    def on_alloc(self, eng, st, o, size): st.g['live'] = z3.Store(st.g['live'], Z(o), I(1))
    def on_realloc(self, eng, st, old, new, size): st.g['live'] = z3.Store(z3.If(Z(old.obj) == 0, st.g['live'], z3.Store(st.g['live'], Z(old.obj), I(0))), Z(new.obj), I(1))
    def on_free(self, eng, st, p): st.g['live'] = z3.If(Z(p.obj) == 0, st.g['live'], z3.Store(st.g['live'], Z(p.obj), I(0)))
    def lemmas(self):
        # a sum over members depends only on the sizes of the members: induction for `agree`
        S, R, a, b = (z3.Function(n, z3.IntSort(), z3.IntSort()) for n in 'SRab'); k, n = z3.Ints('k n')
        return [('equal summands have equal sums (base)', z3.Implies(z3.And(S(0) == 0, R(0) == 0), S(0) == R(0))),
                ('equal summands have equal sums (step)', z3.Implies(z3.And(S(k) == R(k), a(k) == b(k), S(k + 1) == S(k) + pad(a(k)), R(k + 1) == R(k) + pad(b(k))), S(k + 1) == R(k + 1)))] + contents_lemmas()

class Inc(Contract):
    fn = 'IFF_incrementChunkSize'
    def requires(s, c):
        T = H(c.old); x = T.size(c.o(1)); return [('chunk given', c.o(1) != 0), ('sizes stay below 2 GiB', And(c.s(0) >= 0, x >= 0, c.s(0) + pad(x) < 2**31))]
    def ensures(s, c): return [('the padded encoded size of the chunk is added', c.ret.s() == c.s(0) + pad(H(c.old).size(c.o(1)))), unchanged(c)]
def unchanged(c): return ('nothing in memory changes', z3.And(*[c.new.h[h] == c.old.h[h] for h in ALLHP]))

# ---------------------------------------------------------------- adding
class Add(Contract):
    """appends a member; size: also account for it; gt: new group type"""
    modifies = ALLHP + ('nxt', 'live'); size = True; prop = False; contents = False
    arr = property(lambda s: PR if s.prop else CH); ln = property(lambda s: PLEN if s.prop else LENO)
    def requires(s, c):
        T = H(c.old); g, m = c.o(0), c.o(1); a, n = T.sel('PO', g, s.arr), T.u32(g, s.ln)
        nxt = c.old.g['nxt']
        R = [('group and member are two objects', And(g > HEAP0, m > HEAP0, g != m, g < nxt, m < nxt)),
             ('the array is an object of its own', And(a != g, a != m, a >= 0, a < nxt, Or(a == 0, And(a > HEAP0, live(c.old, a) == 1)))), ('room for one more', And(n >= 0, n < 2**32 - 1))]
        if s.size: R.append(('sizes stay below 2 GiB', And(T.size(g) >= 0, T.size(m) >= 0, T.size(g) + pad(T.size(m)) < 2**31)))
        return R
    def ensures(s, c):
        T, N = H(c.old), H(c.new); g, m = c.o(0), c.o(1); n = T.u32(g, s.ln); a0, a1 = T.sel('PO', g, s.arr), N.sel('PO', g, s.arr)
        fields = [(s.ln, n + 1)]
        if s.size: fields.append((SIZE, T.size(g) + pad(T.size(m))))
        if s.contents: fields.append((GT, contents_step(T, g, m)))
        E = [('only number of members' + (', size' if s.size else '') + ' change in the group', row(c.new, 'M32', g) == stored(row(c.old, 'M32', g), *fields)),
             ('the group points to the enlarged array and nothing else in it changes', row(c.new, 'PO', g) == stored(row(c.old, 'PO', g), (s.arr, a1))),
             ('the group becomes the parent of the member', row(c.new, 'PO', m) == stored(row(c.old, 'PO', m), (PARENT, g))),
             ('earlier members keep their places', forall([i_], z3.Implies(z3.And(i_ >= 0, i_ < n), N.sel('PO', a1, 8 * i_) == T.sel('PO', a0, 8 * i_)), N.sel('PO', a1, 8 * i_))),
             ('the member comes last', N.sel('PO', a1, 8 * n) == m),
             ('the array is a new object with room for all members', And(a1 >= c.old.g['nxt'], a1 < c.new.g['nxt'], SZ(a1) >= 8 * (n + 1))),
             ('the old array is released, the new one allocated, nothing else', forall([o_], z3.Select(c.new.g['live'], o_) == z3.If(o_ == a1, 1, z3.If(z3.And(o_ == a0, a0 != 0), 0, z3.Select(c.old.g['live'], o_))), z3.Select(c.new.g['live'], o_))),
             ('objects only grow', c.new.g['nxt'] >= c.old.g['nxt']),
             others(c, c.new, 'M32', g), others(c, c.new, 'PO', g, m)]
        return E + [others(c, c.new, hp) for hp in ('M8', 'M16', 'M64')]
def adder(name, **kw): return type(name, (Add,), dict(fn=name, **kw))

def contents_value(n, ct, ok, gt):
    return z3.If(z3.Not(ok), ct, z3.If(n == 0, gt, z3.If(z3.Or(ct == JJJJ, ct == gt), ct, JJJJ)))
def contents_step(T, g, m): return contents_value(T.n(g), T.gt(g), isin(T.id(m), (FORM, CAT, LIST)), T.gt(m))
def contents_lemmas():
    """C21 over histories: after k additions of group chunks with types t(0..k-1) the contents type is their common type, or JJJJ"""
    t = z3.Function('t', z3.IntSort(), z3.IntSort()); k, ct, j = z3.Ints('k ct j')
    same = lambda n: z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), t(j) == t(0)), patterns=[t(j)])
    inv = lambda n, c: z3.And(z3.Implies(same(n), c == t(0)), z3.Implies(z3.Not(same(n)), c == JJJJ))
    nx = contents_value(k, ct, z3.BoolVal(True), t(k))
    return [('contents type summarises the members (first member)', z3.Implies(k == 0, inv(1, nx))),
            ('contents type summarises the members (next member)', z3.Implies(z3.And(k >= 1, inv(k, ct)), inv(k + 1, nx))),
            ('every member fits the contents type', z3.Implies(z3.And(k >= 1, inv(k, ct), j >= 0, j < k), z3.Or(ct == JJJJ, t(j) == ct))),
            ('any other chunk leaves the contents type alone', contents_value(k, ct, z3.BoolVal(False), t(k)) == ct)]

# ---------------------------------------------------------------- recomputing sizes
class Update(Contract):
    modifies = ('M32',); props = False
    def members_distinct(s, st, g):
        T = H(st); q = [z3.ForAll([k_], z3.Implies(z3.And(k_ >= 0, k_ < T.n(g)), z3.And(T.child(g, k_) != g, T.child(g, k_) != 0, T.size(T.child(g, k_)) >= 0)), patterns=[T.child(g, k_)])]
        if s.props: q.append(z3.ForAll([k_], z3.Implies(z3.And(k_ >= 0, k_ < T.np(g)), z3.And(T.prop(g, k_) != g, T.prop(g, k_) != 0, T.size(T.prop(g, k_)) >= 0)), patterns=[T.prop(g, k_)]))
        return z3.And(*q)
    def bound(s, st, g):
        T = H(st); S, P = (lambda k: sumh(st, g, k)), (lambda k: sumph(st, g, k))
        q = [z3.ForAll([k_], z3.Implies(z3.And(k_ >= 0, k_ <= T.n(g)), z3.And(0 <= S(k_), S(k_) <= S(T.n(g)))), patterns=[S(k_)])]
        if s.props: q.append(z3.ForAll([k_], z3.Implies(z3.And(k_ >= 0, k_ <= T.np(g)), z3.And(0 <= P(k_), P(k_) <= P(T.np(g)))), patterns=[P(k_)]))
        return z3.And(*q, s.total(st, g) < 2**31)
    def total(s, st, g): T = H(st); return 4 + sumh(st, g, T.n(g)) + (sumph(st, g, T.np(g)) if s.props else 0)
    def requires(s, c):
        g = c.o(0); T = H(c.old)
        return [('a group', g > HEAP0), ('members are other chunks', s.members_distinct(c.old, g)), ('sizes stay below 2 GiB', s.bound(c.old, g)), ('lengths', And(T.n(g) >= 0, T.n(g) < 2**32, T.np(g) >= 0, T.np(g) < 2**32))]
    def facts(s, c): return step_facts(c.old, c.o(0), I(0))
    def loop_facts(s, c, L): return step_facts(c.old, c.o(0), L.it)
    def sofar(s, c, st, v): return st.h['M32'] == z3.Store(c.old.h['M32'], c.o(0), stored(row(c.old, 'M32', c.o(0)), (SIZE, v)))
    def folds(s, c, L): return [('SUMH', lambda k: sumh(c.old, c.o(0), k)), ('SUMPH', lambda k: sumph(c.old, c.o(0), k))]
    def hints(s, c, L):
        T = H(c.old); g = c.o(0); A = sumh(c.old, g, T.n(g)); B = sumph(c.old, g, T.np(g))
        out = [('members within', L.it <= T.n(g)), ('properties within', L.it <= T.np(g))]
        out += [(f'the size so far {j}', s.sofar(c, L.st, v)) for j, v in enumerate((4 + sumh(c.old, g, L.it), 4 + A + sumph(c.old, g, L.it), 4 + sumph(c.old, g, L.it), 4 + B + sumh(c.old, g, L.it)))]
        for n, v in L.phi.items():
            if isinstance(v, IV) and v.b is None and v.n == 32 and L.steps[n] in (None, 'x'):
                out += [(f'{n}: the size so far {j}', eq(v.s(), w)) for j, w in enumerate((sumh(c.old, g, L.it), sumph(c.old, g, L.it), 4 + sumh(c.old, g, L.it), 4 + A + sumph(c.old, g, L.it), 4 + sumph(c.old, g, L.it), 4 + B + sumh(c.old, g, L.it)))]
        return out
    def ensures(s, c): return [('the size is that of the contents, nothing else changes', s.sofar(c, c.new, s.total(c.old, c.o(0))))]
def updater(name, props=False): return type(name, (Update,), dict(fn=name, props=props))

CHN = z3.Function('CHN', z3.IntSort(), z3.IntSort())     # the k-th of: the chunk, its parent, the parent of that, ...
LV = z3.Function('LV', z3.IntSort(), z3.IntSort())       # position of an object in that chain
DEPTH = z3.Int('DEPTH')                                  # its length
FS = z3.Function('FS', z3.IntSort(), z3.IntSort())       # the size every chunk must have afterwards
FSUM = z3.Function('FSUM', z3.IntSort(), z3.IntSort(), z3.IntSort())
FSUMP = z3.Function('FSUMP', z3.IntSort(), z3.IntSort(), z3.IntSort())
def on(o): return z3.And(LV(o) >= 0, LV(o) < DEPTH, CHN(LV(o)) == o)
class UpdateAll(Contract):
    fn = 'IFF_updateChunkSizes'; modifies = ('M32',)
    def isgroup(s, T, o): return isin(T.id(o), GROUPS)
    def requires(s, c):
        T = H(c.old); x = c.o(0)
        return [('the chain of enclosing groups ends', z3.And(CHN(0) == x, DEPTH >= 1, CHN(DEPTH) == 0, x > HEAP0,
                    z3.ForAll([k_], z3.Implies(z3.And(k_ >= 0, k_ < DEPTH), z3.And(CHN(k_) > HEAP0, LV(CHN(k_)) == k_, z3.Or(k_ == 0, s.isgroup(T, CHN(k_))))), patterns=[CHN(k_)])))]
    def unfold(s, c, it):
        """definitions at the it-th element of the chain, and well-formedness there"""
        T = H(c.old); x = CHN(it); kid, pr = T.child(x, k_), T.prop(x, k_)
        q = [CHN(it + 1) == T.parent(x),
             z3.Implies(it < DEPTH, FS(x) == z3.If(s.isgroup(T, x), 4 + FSUM(x, T.n(x)) + z3.If(T.id(x) == LIST, FSUMP(x, T.np(x)), 0), T.size(x))),
             T.n(x) >= 0, T.n(x) < 2**32, T.np(x) >= 0, T.np(x) < 2**32, T.id(x) >= 0, T.id(x) < 2**32]
        for m, n, S, g in ((kid, T.n(x), FSUM, s.isgroup(T, x)), (pr, T.np(x), FSUMP, T.id(x) == LIST)):
            q.append(z3.Implies(z3.And(it < DEPTH, g), z3.ForAll([k_], z3.Implies(z3.And(k_ >= 0, k_ < n), z3.And(T.parent(m) == x, m != x, m > HEAP0, FS(m) >= 0, FS(m) < 2**31, z3.Implies(z3.Not(on(m)), FS(m) == T.size(m)),
                        z3.Implies(on(m), LV(m) == it - 1))), patterns=[m])))
            # sizes stay below 2 GiB: prefix sums are monotone and bounded
            q.append(z3.Implies(z3.And(it < DEPTH, g), z3.ForAll([k_], z3.Implies(z3.And(k_ >= 0, k_ <= n), z3.And(0 <= S(x, k_), S(x, k_) <= S(x, n))), patterns=[S(x, k_)])))
        q += [z3.Implies(it < DEPTH, z3.And(FS(x) >= 0, FS(x) < 2**31))]
        return q
    def agree(s, c, st, x):
        """lemma instance: equal member sizes give equal sums"""
        T, N = H(c.old), H(st); out = []
        for S, F, kid, n in ((sumh, FSUM, T.child, T.n(x)), (sumph, FSUMP, T.prop, T.np(x))):
            out.append(z3.Implies(z3.ForAll([k_], z3.Implies(z3.And(k_ >= 0, k_ < n), N.size(kid(x, k_)) == FS(kid(x, k_))), patterns=[kid(x, k_)]),
                                  z3.ForAll([k_], z3.Implies(z3.And(k_ >= 0, k_ <= n), S(st, x, k_) == F(x, k_)), patterns=[S(st, x, k_), F(x, k_)])))
        return out
    def facts(s, c): return s.unfold(c, I(0)) + s.agree(c, c.old, c.o(0))
    def loop_facts(s, c, L): return s.unfold(c, L.it) + s.agree(c, L.st, CHN(L.it))
    def state(s, c, st, it):
        T = H(c.old); r = z3.Select(c.old.h['M32'], o_)
        return forall([o_], z3.Select(st.h['M32'], o_) == z3.If(z3.And(on(o_), LV(o_) < it, s.isgroup(T, o_)), stored(r, (SIZE, FS(o_))), r), z3.Select(st.h['M32'], o_))
    def hints(s, c, L):
        out = [('every chunk up to here has its size', s.state(c, L.st, L.it)), ('within the chain', L.it < DEPTH)]
        for n, v in L.phi.items():
            if isinstance(v, PV): out.append((f'{n}: the next enclosing group', eq(v.obj, CHN(L.it))))
        return out
    def ensures(s, c): return [('the chunk and all enclosing groups have the size of their contents, nothing else changes', s.state(c, c.new, DEPTH))]

def build_layer():
    L = BuildLayer()
    L.add(Inc)
    L.add(adder('IFF_attachToGroup', size=False))
    for n in ('Group', 'Form', 'CAT', 'List', 'Prop'): L.add(adder('IFF_addTo' + n))
    L.add(adder('IFF_addPropToList', prop=True))
    for n in ('CAT', 'List'): L.add(adder(f'IFF_addTo{n}AndUpdateContentsType', contents=True))
    for n in ('Group', 'Form', 'CAT', 'Prop'): L.add(updater(f'IFF_update{n}ChunkSizes'))
    L.add(updater('IFF_updateListChunkSizes', True)); L.add(UpdateAll)
    return L

# ---------------------------------------------------------------- creation
CHUNK, RAW, GROUP, LISTK = 'chunk', 'raw', 'group', 'list'
SIZES = {RAW: 24, GROUP: 32, LISTK: 48}
class Create(Contract):
    """id, size, gt: index of the argument, or ('=', constant)"""
    modifies = ALLHP + ('nxt', 'live'); kind = GROUP; gt = None
    def v(s, c, x): return x[1] if isinstance(x, tuple) else c.u(x)
    def requires(s, c):
        R = [('a size is not negative', c.s(s.size) >= 0)] if not isinstance(s.size, tuple) and s.kind == RAW else []
        if s.fn == 'IFF_createChunk': R.append(('room for the chunk fields', c.u(2) >= 16))
        return R
    def ensures(s, c):
        r = c.ro; N = H(c.new); nxt = c.old.g['nxt']; ok = r != 0; E = []
        def f(nm, q): E.append((nm, z3.Implies(ok, q)))
        lv = c.old.g['live']
        f('a new object', And(r >= nxt, r < c.new.g['nxt']))
        f('the ID is the requested one', N.id(r) == s.v(c, s.id))
        f('the size is the requested one', N.u32(r, SIZE) == s.v(c, s.size))
        f('no parent', N.parent(r) == 0)
        f('an object with room for its kind', SZ(r) >= (c.u(2) if s.kind == CHUNK else SIZES[s.kind]))
        if s.kind in (GROUP, LISTK):
            f('the group type is the requested one', N.gt(r) == s.v(c, s.gt)); f('no members', And(N.n(r) == 0, N.sel('PO', r, CH) == 0))
        if s.kind == LISTK: f('no shared properties', And(N.np(r) == 0, N.sel('PO', r, PR) == 0))
        if s.kind == RAW:
            d = N.data(r); f('a buffer with room for the declared size', And(d >= nxt, d < c.new.g['nxt'], d != r, d > 0, SZ(d) >= c.u(s.size))); lv = z3.Store(lv, d, I(1))
        E.append(('exactly the result is allocated, nothing if there is none', forall([o_], z3.Select(c.new.g['live'], o_) == z3.If(ok, z3.Select(z3.Store(lv, r, I(1)), o_), z3.Select(c.old.g['live'], o_)), z3.Select(c.new.g['live'], o_))))
        E.append(('objects only grow', c.new.g['nxt'] >= nxt))
        return E + [others(c, c.new, hp) for hp in ALLHP]
def maker(name, kind, id, size, gt=None): return type(name, (Create,), dict(fn='IFF_' + name, kind=kind, id=id, size=size, gt=gt))
def K(v): return ('=', v)

class InitGroup(Contract):
    fn = 'IFF_initGroup'; modifies = ('PO', 'M32')
    def requires(s, c): return [('group given', c.o(0) > HEAP0)]
    def ensures(s, c):
        g = c.o(0)
        return [('type set, no members, nothing else changes', And(c.new.h['M32'] == z3.Store(c.old.h['M32'], g, stored(row(c.old, 'M32', g), (GT, c.u(1)), (LENO, 0))),
                 c.new.h['PO'] == z3.Store(c.old.h['PO'], g, stored(row(c.old, 'PO', g), (CH, 0)))))]

def copied(c, L, d, src, n):
    """a loop that copies bytes one by one, forwards or backwards"""
    new, ent = L.st.h['M8'], L.entry.h['M8']; at = lambda lo, hi: forall([i_], z3.Select(z3.Select(new, d), i_) == z3.If(z3.And(i_ >= lo, i_ < hi), z3.Select(z3.Select(ent, src), i_), z3.Select(z3.Select(ent, d), i_)), z3.Select(z3.Select(new, d), i_))
    return [('the bytes so far are copied', at(0, L.it)), ('other objects unchanged', forall([o_], z3.Implies(o_ != d, z3.Select(new, o_) == z3.Select(ent, o_)), z3.Select(new, o_))), ('within', Z(L.it) <= Z(n))] + ([('the last bytes are copied', at(n - L.it, n))] if L.down else [])
class CopyData(Contract):
    fn = 'IFF_copyDataToRawChunkData'; modifies = ('M8',)
    def hints(s, c, L): T = H(c.old); o = c.o(0); return copied(c, L, T.data(o), c.o(1), T.size(o))
    def requires(s, c):
        T = H(c.old); return [('chunk and data given', And(c.o(0) > HEAP0, T.data(c.o(0)) > HEAP0, c.o(1) != 0)), ('another buffer', T.data(c.o(0)) != c.o(1)), ('size', T.size(c.o(0)) >= 0)]
    def ensures(s, c):
        T, N = H(c.old), H(c.new); d = T.data(c.o(0)); n = T.size(c.o(0))
        return [('the buffer holds exactly the bytes given', forall([i_], z3.Select(row(c.new, 'M8', d), i_) == z3.If(z3.And(i_ >= 0, i_ < n), z3.Select(row(c.old, 'M8', c.o(1)), i_), z3.Select(row(c.old, 'M8', d), i_)), z3.Select(row(c.new, 'M8', d), i_))),
                ('nothing else changes', forall([o_], z3.Implies(o_ != d, z3.Select(c.new.h['M8'], o_) == z3.Select(c.old.h['M8'], o_)), z3.Select(c.new.h['M8'], o_)))]
class SetData(Contract):
    fn = 'IFF_setRawChunkData'; modifies = ('PO', 'M32')
    def requires(s, c): return [('chunk given', c.o(0) > HEAP0)]
    def ensures(s, c):
        o = c.o(0)
        return [('the chunk has the given buffer and size, nothing else changes', And(c.new.h['M32'] == z3.Store(c.old.h['M32'], o, stored(row(c.old, 'M32', o), (SIZE, c.u(2)))),
                 c.new.h['PO'] == z3.Store(c.old.h['PO'], o, stored(row(c.old, 'PO', o), (DATA, c.o(1))))))]
class SetText(Contract):
    fn = 'IFF_setTextData'; modifies = ALLHP + ('nxt', 'live')
    def requires(s, c): return [('chunk and text given', And(c.o(0) > HEAP0, c.o(0) < c.old.g['nxt'], c.o(1) != 0, c.o(1) < c.old.g['nxt']))]
    def hints(s, c, L): return copied(c, L, L.entry.g['nxt'] - 1, c.o(1), STRLEN(c.o(1)))
    def ensures(s, c):
        N = H(c.new); o = c.o(0); d = N.data(o); n = STRLEN(c.o(1))
        return [('the size is the length of the text', row(c.new, 'M32', o) == stored(row(c.old, 'M32', o), (SIZE, n))),
                ('a new buffer with room for it', And(d >= c.old.g['nxt'], SZ(d) >= n, row(c.new, 'PO', o) == stored(row(c.old, 'PO', o), (DATA, d)))),
                ('the buffer holds the characters of the text', forall([i_], z3.Implies(z3.And(i_ >= 0, i_ < n), z3.Select(row(c.new, 'M8', d), i_) == z3.Select(row(c.old, 'M8', c.o(1)), i_)), z3.Select(row(c.new, 'M8', d), i_))),
                ('only the buffer is allocated', forall([o_], z3.Select(c.new.g['live'], o_) == z3.If(o_ == d, 1, z3.Select(c.old.g['live'], o_)), z3.Select(c.new.g['live'], o_))),
                others(c, c.new, 'M8'), others(c, c.new, 'M32', o), others(c, c.new, 'PO', o), others(c, c.new, 'M16'), others(c, c.new, 'M64')]

CREATORS = [maker('createChunk', CHUNK, 0, 1), maker('createRawChunk', RAW, 0, 1), maker('createGroup', GROUP, 0, 1, 2), maker('createEmptyGroup', GROUP, 0, K(4), 1),
            maker('createUnparsedGroup', GROUP, 0, 1, K(0))]
for _n, _id in (('Form', FORM), ('CAT', CAT), ('Prop', PROP)):
    CREATORS += [maker('create' + _n, GROUP, K(_id), 0, 1), maker('createUnparsed' + _n, GROUP, 0, 1, K(0))]
CREATORS += [maker('createEmptyForm', GROUP, K(FORM), K(4), 0), maker('createEmptyProp', GROUP, K(PROP), K(4), 0), maker('createEmptyCATWithContentsType', GROUP, K(CAT), K(4), 0), maker('createEmptyCAT', GROUP, K(CAT), K(4), K(JJJJ)),
             maker('createList', LISTK, K(LIST), 0, 1), maker('createEmptyListWithContentsType', LISTK, K(LIST), K(4), 0), maker('createEmptyList', LISTK, K(LIST), K(4), K(JJJJ)), maker('createUnparsedList', LISTK, K(LIST), 1, K(0))]
def create_layer():
    L = BuildLayer(); L.name = 'create'; L.lemmas = lambda: []
    for x in CREATORS + [InitGroup, CopyData, SetData, SetText]: L.add(x)
    return L
