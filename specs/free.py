"""C16: freeing a tree.  The tree is constant; the ghost map live says which objects are allocated.  Every access needs a live object,
every free a live object.  BL(o,b): block b belongs to the tree with root o; IX(o,b), PX(o,b): in which member / shared property it lies."""
from tree import *
from build import forall, o_, i_, live

Int = z3.IntSort(); B = z3.BoolSort()
BL = z3.Function('BL', Int, Int, B); BX = z3.Function('BXB', Int, Int, B)      # of the tree; of the tree without its root chunk
IX = z3.Function('IX', Int, Int, Int); PX = z3.Function('PX', Int, Int, Int)
b_ = z3.Int('b!')
def MB(T, o, b): return z3.And(IX(o, b) >= 0, IX(o, b) < T.n(o), BL(T.child(o, IX(o, b)), b))
def PB(T, o, b): return z3.And(T.id(o) == LIST, PX(o, b) >= 0, PX(o, b) < T.np(o), BL(T.prop(o, PX(o, b)), b))
def arr(T, o): return T.sel('PO', o, CH)
def parr(T, o): return T.sel('PO', o, PR)
def GE(T, o, b): return z3.Or(MB(T, o, b), z3.And(b == arr(T, o), b != 0))
def blocks_def(T, o):
    """the blocks of a tree, and that they are different from one another (no block occurs twice)"""
    grp = isin(T.id(o), GROUPS); m, p = T.child(o, i_), T.prop(o, i_)
    ext = z3.If(grp, z3.Or(GE(T, o, b_), z3.And(T.id(o) == LIST, z3.Or(PB(T, o, b_), z3.And(b_ == parr(T, o), b_ != 0)))), z3.And(b_ == T.data(o), b_ != 0))
    return [forall([b_], BX(o, b_) == ext, BX(o, b_), BL(o, b_)), forall([b_], BL(o, b_) == z3.Or(b_ == o, BX(o, b_)), BL(o, b_), BX(o, b_)),
            z3.Not(BX(o, o)), forall([b_], z3.Implies(BL(o, b_), b_ > HEAP0), BL(o, b_)), T.id(o) >= 0,
            *[z3.And(T.u32(o, f) >= 0, T.u32(o, f) < 2**32) for f in (ID, SIZE, GT, LENO, PLEN)],
            z3.Implies(grp, z3.And(z3.Implies(T.n(o) > 0, arr(T, o) != 0), forall([i_, b_], z3.Implies(z3.And(i_ >= 0, i_ < T.n(o), BL(m, b_)), z3.And(IX(o, b_) == i_, b_ != o, b_ != arr(T, o))), BL(m, b_)),
                                forall([i_], z3.Implies(z3.And(i_ >= 0, i_ < T.n(o)), z3.And(DJ(m), BL(m, m))), m))),
            z3.Implies(T.id(o) == LIST, z3.And(z3.Implies(T.np(o) > 0, parr(T, o) != 0), z3.Or(parr(T, o) == 0, parr(T, o) != arr(T, o)), z3.Not(MB(T, o, parr(T, o))),
                                forall([i_, b_], z3.Implies(z3.And(i_ >= 0, i_ < T.np(o), BL(p, b_)), z3.And(PX(o, b_) == i_, b_ != o, b_ != arr(T, o), b_ != parr(T, o), z3.Not(MB(T, o, b_)))), BL(p, b_)),
                                forall([i_], z3.Implies(z3.And(i_ >= 0, i_ < T.np(o)), z3.And(DJ(p), BL(p, p))), p)))]
DJ = z3.Function('DJ', Int, B)      # the definitions above apply to this tree

class FreeLayer(PureLayer):
    name = 'free'
    def init_state(self, eng):
        st = super().init_state(eng); st.g['live'] = fresh('live', ROW); return st
    def sizes(self, o): return []
    def on_load(self, eng, st, pv, ty): self.access(eng, st, pv)
    def on_store(self, eng, st, pv, ty, v): self.access(eng, st, pv)
    def access(self, eng, st, pv):
        if eng.is_cell(pv) or isc(pv.obj) and 0 < pv.obj < HEAP0: return
        eng.prove(st, live(st, pv.obj) == 1, 'the object accessed is allocated')
    def on_free(self, eng, st, p):
        o = Z(p.obj); off = p.offset()
        if not (isc(off) and off == 0): eng.prove(st, Or(eq(off, 0), o == 0), 'the start of a block is released')
        eng.prove(st, z3.Or(o == 0, live(st, o) == 1), 'the block released is allocated')
        st.g['live'] = z3.If(o == 0, st.g['live'], z3.Store(st.g['live'], o, I(0)))
def released(c, st, sel):
    return forall([b_], live(st, b_) == z3.If(sel(b_), 0, live(c.old, b_)), live(st, b_))

class Free(PureContract):
    reg = 1; kind = None; modifies = ('live',); what = 'exactly the blocks of the tree other than the root chunk are released'
    def sel(s, T, o): return lambda b: BX(o, b)
    def need(s, T, o): return lambda b: BL(o, b)
    def requires(s, c):
        T, o = s.layer.T, c.o(0)
        R = [('a tree', z3.And(o > HEAP0, DJ(o))), ('it is allocated', forall([b_], z3.Implies(s.need(T, o)(b_), live(c.old, b_) == 1), live(c.old, b_), BL(o, b_))), ('the registry is the one passed in', peq(c.a[s.reg], PV(c.eng.prog.ids['IFF_defaultChunkRegistry'])))]
        if s.kind: R.append(('the chunk is of the kind of this function', isin(T.id(o), s.kind)))
        if s.kind is False: R.append(('the chunk is a data chunk', z3.Not(isin(T.id(o), GROUPS))))
        return R
    def facts(s, c): return blocks_def(s.layer.T, c.o(0)) + [BL(c.o(0), c.o(0))] + s.layer.sizes(c.o(0))
    def ensures(s, c): return [(s.what, released(c, c.new, s.sel(s.layer.T, c.o(0))))] + s.unchanged(c)
    def loop_facts(s, c, L):
        T, o = s.layer.T, c.o(0)
        mem = lambda k: forall([b_], z3.Implies(z3.And(k >= 0, k < T.n(o), BL(T.child(o, k), b_)), z3.And(IX(o, b_) == k, BL(o, b_))), BL(T.child(o, k), b_))
        return [mem(L.it)] + ([mem(T.n(o) - 1 - L.it)] if L.down else [])
    def hints(s, c, L):
        T, o = s.layer.T, c.o(0)
        ent = lambda b: z3.Select(L.entry.g['live'], b)
        part = lambda X, lim: forall([b_], live(L.st, b_) == z3.If(z3.And(X[1](T, o, b_), X[0](o, b_) < lim), 0, ent(b_)), live(L.st, b_))
        last = lambda X, lim: forall([b_], live(L.st, b_) == z3.If(z3.And(X[1](T, o, b_), X[0](o, b_) >= lim), 0, ent(b_)), live(L.st, b_))
        return [('members within', L.it <= T.n(o)), ('properties within', L.it <= T.np(o)), ('exactly the members so far are released', part((IX, MB), L.it)), ('exactly the shared properties so far are released', part((PX, PB), L.it))] + ([] if not L.down else [
                ('exactly the last members are released', last((IX, MB), T.n(o) - L.it)), ('exactly the last shared properties are released', last((PX, PB), T.np(o) - L.it))])
class FreeGroup(Free):
    """on a list: members only"""
    fn = 'IFF_freeGroup'; kind = GROUPS; what = 'exactly the members and the member array are released'
    def sel(s, T, o): return lambda b: GE(T, o, b)
    def need(s, T, o): return lambda b: z3.Or(b == o, GE(T, o, b))
class FreeForm(FreeGroup): fn = 'IFF_freeForm'; kind = (FORM, PROP)
class FreeProp(FreeGroup): fn = 'IFF_freeProp'; kind = (PROP,)
class FreeCAT(FreeGroup): fn = 'IFF_freeCAT'; kind = (CAT, LIST)
class FreeList(Free): fn = 'IFF_freeList'; kind = (LIST,)
class FreeRaw(Free): fn = 'IFF_freeRawChunk'; kind = False
class FreeChunk(Free):
    fn = 'IFF_freeChunk'; reg = 2; what = 'exactly the blocks of the tree are released'
    def sel(s, T, o): return lambda b: BL(o, b)
class FreeTop(FreeChunk):
    fn = 'IFF_free'; reg = 1
    def cases(s): return ['NULL registry', 'registry given']
    def setup(s, c, st, case): c.a[s.reg] = PV(0) if case == 'NULL registry' else PV(c.eng.prog.ids['IFF_defaultChunkRegistry'])
    def requires(s, c): return [x for x in super().requires(c) if not x[0].startswith('the registry')]
def free_layer():
    L = FreeLayer()
    for k in (FreeGroup, FreeForm, FreeProp, FreeCAT, FreeList, FreeRaw, FreeChunk, FreeTop): L.add(k)
    return L
