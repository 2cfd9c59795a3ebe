"""C07: reading arbitrary bytes is memory safe and leaves nothing behind when it fails.

Ghost state: live (which objects are allocated), ini (which locations hold a value: width of the last store, 9 = zeroed by calloc), ck (roots of
complete trees), hi (the blocks of the tree y are the live objects of y..hi(y)), own (last object a pointer to it was stored in),
pos, slot (index and array of a member; fam identifies an array across realloc), kk (kk[y][b]: the member of y that block b belongs to)."""
from build import *
from read import Skip, PadByte, boolres, reg_req
import read, free, itertools

_n = itertools.count()
b_, y_ = z3.Int('b!'), z3.Int('y!')
NINE = z3.K(z3.IntSort(), I(9)); ZERO = z3.K(z3.IntSort(), I(0))
GH = ('live', 'ck', 'hi', 'own', 'pos', 'slot', 'fam', 'kk', 'ini')
def g(st, n, o): return z3.Select(st.g[n], Z(o))
def ini(st, o, f): return z3.Select(g(st, 'ini', o), Z(f))
def ready(e, n): return z3.Or(e == n, e == 9)
def odd(x): return z3.If(x % 2 != 0, 1, 0)

class MemLayer(BuildLayer):
    name = 'mem'; mem = True; no_oom = (); split = True
    def __init__(self):
        super().__init__(); self.libc.update(calloc=self.h_calloc, IFF_error=diag)
    def init_state(self, eng):
        st = super().init_state(eng); files(st)
        for n in GH[1:]: st.g[n] = fresh(n, HEAP if n in ('kk', 'ini') else ROW)
        st.assume(fresh_state(st), g(st, 'live', 0) != 1, g(st, 'ck', 0) != 1)
        return st
    def lemmas(self): return blocks_lemmas()
    def h_calloc(self, eng, st, a, ins):
        out = h_calloc(eng, st, a, ins)
        for s, p in out:
            if not isc(p.obj): s.g['ini'] = z3.Store(s.g['ini'], p.obj, NINE)
        return out
    def on_alloc(self, eng, st, o, size):
        super().on_alloc(eng, st, o, size); st.g['ini'] = z3.Store(st.g['ini'], o, ZERO); st.g['fam'] = z3.Store(st.g['fam'], o, o); st.assume(SZ(o) >= 0)
    def on_realloc(self, eng, st, old, new, size):
        self.block(eng, st, old, 'realloc')
        super().on_realloc(eng, st, old, new, size); o = Z(old.obj)
        for n in ('ini', 'fam'): st.g[n] = z3.Store(st.g[n], new.obj, z3.If(o == 0, ZERO if n == 'ini' else new.obj, g(st, n, o)))
    def on_free(self, eng, st, p):
        self.block(eng, st, p, 'free'); super().on_free(eng, st, p)
    def block(self, eng, st, p, what):
        off = p.offset()
        eng.prove(st, Or(eq(p.obj, 0), And(eq(off, 0), g(st, 'live', p.obj) == 1)), f'{what}: the start of an allocated block')
    def skip(self, eng, pv): return isc(pv.obj) and pv.obj in eng.prog.byid
    def cell_ok(self, eng, st, pv, size):
        n = st.g.get(('alloca', pv.obj))
        if n is not None and isc(pv.offset()): eng.prove(st, 0 <= pv.offset() and pv.offset() + size <= n, 'a local is accessed within its bounds')
    def within(self, st, pv, n): off = pv.offset(); return And(g(st, 'live', pv.obj) == 1, le(0, off), le(add(off, n), SZ(Z(pv.obj))))
    def on_load(self, eng, st, pv, ty):
        size = 8 if ty.k == 'ptr' else max(1, ty.n // 8)
        if eng.is_cell(pv): return self.cell_ok(eng, st, pv, size)
        if self.skip(eng, pv): return
        eng.prove(st, self.within(st, pv, size), 'load from an allocated object, within its bounds')
        eng.prove(st, ready(ini(st, pv.obj, pv.offset()), size), 'load of an initialised value')
    def on_store(self, eng, st, pv, ty, v):
        size = 8 if ty.k == 'ptr' else max(1, ty.n // 8)
        if eng.is_cell(pv): return self.cell_ok(eng, st, pv, size)
        if self.skip(eng, pv): return
        eng.prove(st, self.within(st, pv, size), 'store to an allocated object, within its bounds')
        if isinstance(v, UV): eng.prove(st, False, 'an initialised value is stored'); return
        self.init(st, pv, size)
        if ty.k == 'ptr' and not (isc(v.obj) and v.obj == 0):
            o, off = Z(pv.obj), pv.offset()
            st.g['own'] = z3.Store(st.g['own'], Z(v.obj), o)
            new = g(st, 'ck', v.obj) == 1; i = z3.Int(f'ix!{next(_n)}'); st.assume(z3.Implies(Z(off) % 8 == 0, 8 * i == Z(off)))
            for n, e in (('pos', i), ('slot', g(st, 'fam', o))): st.g[n] = z3.Store(st.g[n], Z(v.obj), z3.If(new, e, g(st, n, v.obj)))
    def init(self, st, pv, size): st.g['ini'] = z3.Store(st.g['ini'], Z(pv.obj), z3.Store(g(st, 'ini', pv.obj), Z(pv.offset()), I(size)))
    def need_write(self, eng, st, pv, n, what):
        if eng.is_cell(pv):
            if isc(n): self.cell_ok(eng, st, pv, n)
            return
        eng.prove(st, Or(eq(n, 0), self.within(st, pv, n)), f'{what}: within an allocated object')
    def need_read(self, eng, st, pv, n, what):
        self.need_write(eng, st, pv, n, what)
        if eng.is_cell(pv) or self.skip(eng, pv): return
        off = Z(pv.offset()); eng.prove(st, z3.ForAll([i_], z3.Implies(z3.And(i_ >= off, i_ < off + Z(n)), ready(ini(st, pv.obj, i_), 1))), f'{what}: initialised')
    def wrote_bytes(self, eng, st, pv, n):
        row = fresh('inirow', ROW); off = Z(pv.offset()); old = g(st, 'ini', pv.obj)
        st.assume(z3.ForAll([i_], z3.Select(row, i_) == z3.If(z3.And(i_ >= off, i_ < off + Z(n)), 1, z3.Select(old, i_)), patterns=[z3.Select(row, i_)]))
        st.g['ini'] = z3.Store(st.g['ini'], Z(pv.obj), row)
    def wrote_zero(self, eng, st, pv, n):
        row = fresh('inirow', ROW); off = Z(pv.offset()); old = g(st, 'ini', pv.obj); end = off + Z(n)
        st.assume(z3.ForAll([i_], z3.Select(row, i_) == z3.If(z3.And(i_ >= off, i_ < end), z3.If(i_ + 8 <= end, 9, z3.If(i_ + 4 <= end, 4, 1)), z3.Select(old, i_)), patterns=[z3.Select(row, i_)]))
        st.g['ini'] = z3.Store(st.g['ini'], Z(pv.obj), row)
    def wrote_int(self, eng, st, pv, n): self.init(st, pv, n)

def fresh_state(st):
    nx = st.g['nxt']; return z3.And(*[forall([o_], z3.Implies(o_ >= nx, g(st, n, o_) != 1), g(st, n, o_)) for n in ('live', 'ck')])

# ---------------------------------------------------------------- a tree in memory
def parts(st, y, Hi, full):
    """[(name, variables, formula, trigger)]: y is the root of a tree whose blocks are the live objects of y..Hi-1"""
    T = H(st); y = Z(y); idy = T.id(y); grp = isin(idy, GROUPS); lst = idy == LIST
    L = lambda o: g(st, 'live', o) == 1
    C = lambda o: g(st, 'ck', o) == 1
    a, pa, d = T.sel('PO', y, CH), T.sel('PO', y, PR), T.data(y)
    hd = lambda f, n: ready(ini(st, y, f), n)
    buf = lambda o, n: z3.And(y < o, o < Hi, L(o), SZ(o) >= n, g(st, 'own', o) == y, z3.Not(C(o)))
    def array(o, n): return z3.And(n >= 0, z3.Or(z3.And(o == 0, n == 0), z3.And(buf(o, 8 * n), g(st, 'fam', o) <= o, g(st, 'fam', o) > 0)))
    out = [('allocated', (), z3.And(y > HEAP0, y < Hi, L(y), T.size(y) >= 0, SZ(y) >= z3.If(lst, 48, z3.If(grp, 32, 24))), None),
           ('header initialised', (), z3.And(hd(PARENT, 8), hd(ID, 4), hd(SIZE, 4), z3.If(grp, z3.And(hd(GT, 4), hd(LENO, 4), hd(CH, 8), z3.Implies(lst, z3.And(hd(PLEN, 4), hd(PR, 8)))), hd(DATA, 8))), None),
           ('member array', (), z3.Implies(grp, array(a, T.n(y))), None),
           ('property array', (), z3.Implies(lst, z3.And(array(pa, T.np(y)), z3.Or(a == 0, pa == 0, z3.And(a != pa, g(st, 'fam', a) != g(st, 'fam', pa))))), None),
           ('buffer', (), z3.Implies(z3.Not(grp), buf(d, T.size(y))), None)]
    if full is not False: out.append(('data bytes initialised', (i_,), z3.Implies(z3.And(full, z3.Not(grp), i_ >= 0, i_ < T.size(y)), ready(ini(st, d, i_), 1)), ini(st, d, i_)))
    for nm, ok, kid, n, arr in (('members', grp, T.child(y, i_), T.n(y), a), ('properties', lst, T.prop(y, i_), T.np(y), pa)):
        k = kid; hk = g(st, 'hi', k); dom = z3.And(ok, i_ >= 0, i_ < n)
        out += [(nm, (i_,), z3.Implies(dom, z3.And(y < k, k < hk, hk <= Hi, C(k), L(k), T.parent(k) == y, g(st, 'pos', k) == i_, g(st, 'slot', k) == g(st, 'fam', arr), ready(ini(st, arr, 8 * i_), 8))), [k, ini(st, arr, 8 * i_)]),
                (nm + ' do not contain the arrays', (i_,), z3.Implies(dom, z3.And(z3.Not(z3.And(k <= a, a < hk)), z3.Implies(lst, z3.Not(z3.And(k <= pa, pa < hk))))), k),
                (nm + ': their blocks', (i_, b_), z3.Implies(z3.And(dom, k <= b_, b_ < hk), z3.Select(g(st, 'kk', y), b_) == k), (k, z3.Select(g(st, 'kk', y), b_)))]
    z = z3.Select(g(st, 'kk', y), b_); pz = g(st, 'pos', z); hz = g(st, 'hi', z)
    dom = z3.And(grp, y < b_, b_ < Hi, L(b_), b_ != a, z3.Not(z3.And(lst, b_ == pa)))
    sl = g(st, 'slot', z); at = z3.Or(z3.And(sl == g(st, 'fam', a), pz >= 0, pz < T.n(y), T.child(y, pz) == z), z3.And(lst, sl == g(st, 'fam', pa), pz >= 0, pz < T.np(y), T.prop(y, pz) == z))
    out += [('every block belongs to a member', (b_,), z3.Implies(dom, z3.And(y < z, z <= b_, b_ < hz, hz <= Hi, C(z))), z), ('which is at its position', (b_,), z3.Implies(dom, at), z)]
    out.append(('a data chunk only has its buffer', (b_,), z3.Implies(z3.And(z3.Not(grp), y < b_, b_ < Hi, L(b_)), b_ == d), g(st, 'live', b_)))
    return out
def INV1(st, y, Hi, full): return [(nm, forall(list(vs), q, *(t if isinstance(t, list) else [t])) if vs else q) for nm, vs, q, t in parts(st, y, Hi, full)]
def INVall(st, lo):
    """every complete tree created since lo"""
    y = y_; hy = g(st, 'hi', y); dom = z3.And(y >= lo, g(st, 'ck', y) == 1); out = [('complete trees: extent', forall([y], z3.Implies(dom, z3.And(hy <= st.g['nxt'], y < hy)), g(st, 'ck', y)))]
    for nm, vs, q, t in parts(st, y, hy, z3.BoolVal(True)):
        tr = g(st, 'ck', y); pats = [tr if u is None else (tr, *u) if isinstance(u, tuple) else (tr, u) for u in (t if isinstance(t, list) else [t])]
        out.append((f'complete trees: {nm}', forall([y, *vs], z3.Implies(dom, q), *pats)))
    return out
def kept(c, st, *ex, hps=('PO', 'M32', 'M8')):
    """objects that existed on entry, except those given"""
    n0 = c.old.g['nxt']; out = []
    for n in hps + GH:
        new, old = (st.h[n], c.old.h[n]) if n in st.h else (st.g[n], c.old.g[n])
        e = [x for ns, x in ex if n in ns]
        out.append((f'existing objects unchanged ({n})', forall([o_], z3.Implies(z3.And(o_ < n0, *[o_ != x for x in e]), z3.Select(new, o_) == z3.Select(old, o_)), z3.Select(new, o_))))
    return out
MODS = ALLHP + ('FP', 'fault', 'nxt') + GH
def small(c, f): return ('the file is smaller than 2 GiB', LEN(f) < 2**31 - 16)

class MReadBody(Contract):
    bpk = 3; regk = 2; kinds = (); out = property(lambda s: {s.bpk: 'i32'}); modifies = property(lambda s: MODS + (('out', s.bpk),))
    def default_arg(s, c, k, ty, st): return PV(c.eng.prog.ids['IFF_defaultChunkRegistry']) if k == s.regk else None
    def kind(s, T, x): return isin(T.id(x), s.kinds) if s.kinds else z3.Not(isin(T.id(x), GROUPS))
    def bytes(s, c, st): return st.loc(c.a[s.bpk]).s()
    def requires(s, c):
        T = H(c.old); f, x = c.o(0), c.o(1); nx = c.old.g['nxt']
        R = [('file position', And(f > 0, fp(c.old, f) >= 0, fp(c.old, f) <= LEN(f))), small(c, f), reg_req(c, s.regk), ('nothing is counted yet', s.bytes(c, c.old) == 0), ('it is of the right kind', s.kind(T, x)),
             ('a chunk without a parent', And(T.parent(x) == 0, g(c.old, 'ck', x) != 1, x < nx)), ('what does not exist yet is not allocated', fresh_state(c.old))]
        if s.kinds: R.append(('no members', And(T.n(x) == 0, T.sel('PO', x, CH) == 0, z3.Implies(T.id(x) == LIST, And(T.np(x) == 0, T.sel('PO', x, PR) == 0)))))
        return R + INV1(c.old, x, nx, False)
    def rest(s, c, st):
        x = c.o(1); T, N = H(c.old), H(st); d = T.data(x)
        ex = [(('PO', 'M32', 'ini', 'kk', 'own'), x)] + ([] if s.kinds else [(('M8', 'ini'), d)])
        return kept(c, st, *ex) + [('ID, size and parent of the chunk unchanged', z3.And(N.id(x) == T.id(x), N.size(x) == T.size(x), N.parent(x) == 0)), ('objects only grow', st.g['nxt'] >= c.old.g['nxt']), ('what does not exist yet is not allocated', fresh_state(st))]
    def ensures(s, c):
        f, x = c.o(0), c.o(1); ok = c.rb; b = s.bytes(c, c.new); p, q = fp(c.old, f), fp(c.new, f); st = c.new
        E = [boolres(c), ('the count is not negative and not more than was consumed', Imp(ok, And(b >= 0, q >= p + b, q <= LEN(f))))]
        return E + s.rest(c, st) + INV1(st, x, st.g['nxt'], ok) + INVall(st, c.old.g['nxt'])
    def hints(s, c, L):
        f, x = c.o(0), c.o(1); st = L.st; T = H(st); p, q = fp(c.old, f), fp(st, f); out = []
        for k, (v0, v1) in L.cell.items():
            if isinstance(v1, IV): out.append((f'{k}: bytes so far', And(le(4, v1.s()), le(add(p, v1.s()), q), 8 * (T.n(x) + (T.np(x) if LIST in s.kinds else 0)) <= v1.s()))); 
        out += [('file position', And(q <= LEN(f), q >= p)), ('numbers of members', And(T.n(x) >= 0, T.np(x) >= 0))]
        if not s.kinds:     # data read in blocks
            d = H(c.old).data(x)
            out += block_hints(L, T.size(x), d, lambda k: z3.And(q == p + k, forall([i_], z3.Implies(z3.And(i_ >= 0, i_ < k), ready(ini(st, d, i_), 1)), ini(st, d, i_))))
        if s.kinds: out += [(f'array {k} is new', Or(a == 0, a >= c.old.g['nxt'])) for k in (CH, PR) for a in [T.sel('PO', x, k)] if k == CH or LIST in s.kinds]
        return out + s.rest(c, st) + INV1(st, x, st.g['nxt'], False) + INVall(st, c.old.g['nxt'])
def mbody(name, *kinds, **kw): return type('M' + name, (MReadBody,), dict(fn='IFF_' + name, kinds=kinds, **kw))

class FreeAt(Contract):
    """proved in the free layer; the lemma `blocks` connects the two descriptions of a tree"""
    fn = 'IFF_freeChunk'; modifies = ('live', 'ck'); elsewhere = True; regk = 2      # ck is ghost: forgotten here
    def requires(s, c):
        x = c.o(0); st = c.old; Hi = z3.If(g(st, 'ck', x) == 1, g(st, 'hi', x), st.g['nxt'])
        return [reg_req(c, s.regk)] + [(f'tree to release: {nm}', q) for nm, q in INV1(st, x, Hi, False) + INVall(st, x)]
    def ensures(s, c):
        x = c.o(0); st = c.old; Hi = z3.If(g(st, 'ck', x) == 1, g(st, 'hi', x), st.g['nxt'])
        return [(f'{n} cleared', forall([o_], g(c.new, n, o_) == z3.If(z3.And(o_ >= x, o_ < Hi, g(st, n, o_) == 1), 0, g(st, n, o_)), g(c.new, n, o_))) for n in ('live', 'ck')]

class FreeBody(FreeAt):
    """a function that releases what belongs to a chunk, but not the chunk: proved in the free layer for the same chunks"""
    regk = 1; kinds = ()
    def requires(s, c): T = H(c.old); x = c.o(0); return [('it is of the right kind', isin(T.id(x), s.kinds) if s.kinds else z3.Not(isin(T.id(x), GROUPS)))] + super().requires(c)
    def ensures(s, c):
        x = c.o(0); st = c.old; Hi = z3.If(g(st, 'ck', x) == 1, g(st, 'hi', x), st.g['nxt'])
        return [(f'{n} cleared', forall([o_], g(c.new, n, o_) == z3.If(z3.And(o_ > x if n == 'live' else o_ >= x, o_ < Hi, g(st, n, o_) == 1), 0, g(st, n, o_)), g(c.new, n, o_))) for n in ('live', 'ck')]

class MReadChunk(Contract):
    fn = 'IFF_readChunk'; modifies = MODS; regk = 2
    def default_arg(s, c, k, ty, st): return PV(c.eng.prog.ids['IFF_defaultChunkRegistry']) if k == s.regk else None
    def requires(s, c):
        f = c.o(0); return [('file position', And(f > 0, fp(c.old, f) >= 0)), small(c, f), reg_req(c, s.regk), ('what does not exist yet is not allocated', fresh_state(c.old)), ('objects', c.old.g['nxt'] > HEAP0)]
    def ensures(s, c):
        f = c.o(0); r = c.ro; ok = r != 0; n0 = c.old.g['nxt']; st = c.new; N = H(st); p, q = fp(c.old, f), fp(st, f)
        E = kept(c, st) + [('objects only grow', st.g['nxt'] >= n0), ('what does not exist yet is not allocated', fresh_state(st))]
        E += [(f'without a result nothing stays allocated ({n})', z3.Implies(z3.Not(ok), forall([o_], z3.Implies(o_ >= n0, g(st, n, o_) != 1), g(st, n, o_)))) for n in ('live', 'ck')]
        S = [('a new chunk without a parent', And(r == n0, r < st.g['nxt'], g(st, 'ck', r) != 1, N.parent(r) == 0)), ('at least header, body and pad byte are consumed', And(q >= p + 8 + N.size(r) + odd(N.size(r)), q <= LEN(f)))]
        return E + [(nm, Imp(ok, x)) for nm, x in S + INV1(st, r, st.g['nxt'], z3.BoolVal(True)) + INVall(st, n0)]
    def apply(s, eng, a, st):
        old = st.copy(); c = Ctx(eng, s, a, old)
        for nm, q in s.requires(c): eng.prove(st, q, f'call {s.fn}: requires {nm}'); st.assume(q)
        s.havoc(c, st); c.ret = PV(fresh('r_' + s.fn)); st.assume(c.ret.obj >= 0); c.new = st; r = c.ro
        for nm, q in s.ensures(c): st.assume(q)
        s1, s2 = feas(eng, st, r != 0), feas(eng, st, r == 0); out = []
        if s1:
            con = eng.ctx.con
            if isinstance(con, MReadBody):     # ghost: the complete tree r will be a member of the chunk being read
                x = eng.ctx.o(1); row = fresh('kkrow', ROW); old = g(s1, 'kk', x)
                s1.assume(forall([b_], z3.Select(row, b_) == z3.If(b_ >= r, r, z3.Select(old, b_)), z3.Select(row, b_)))
                s1.g['kk'] = z3.Store(s1.g['kk'], x, row); s1.g['ck'] = z3.Store(s1.g['ck'], r, I(1)); s1.g['hi'] = z3.Store(s1.g['hi'], r, s1.g['nxt'])
            out.append((s1, c.ret))
        if s2: out.append((s2, PV(0)))
        return out
class MReadFd(MReadChunk):
    fn = 'IFF_readFd'; regk = 1
    def cases(s): return ['NULL registry', 'registry given']
    def setup(s, c, st, case): c.a[1] = PV(0) if case == 'NULL registry' else PV(c.eng.prog.ids['IFF_defaultChunkRegistry'])
    def requires(s, c): return [x for x in super().requires(c) if 'registry' not in x[0]] + [('the registry is NULL or the built-in one', Or(peq(c.a[1], PV(0)), peq(c.a[1], PV(c.eng.prog.ids['IFF_defaultChunkRegistry']))))]
    def ensures(s, c): return [(nm, q) for nm, q in super().ensures(c) if not nm.startswith('at least')]

# ---------------------------------------------------------------- releasing such a tree
INI0 = z3.Const('INI0', HEAP)
def extents(T, ini, o):
    """what the access checks need to know about one chunk of a tree"""
    at = lambda x, f: z3.Select(z3.Select(ini, x), Z(f)); idy = T.id(o); grp = isin(idy, GROUPS); lst = idy == LIST; hd = lambda f, n: ready(at(o, f), n)
    out = [SZ(o) >= z3.If(lst, 48, z3.If(grp, 32, 24)), hd(ID, 4), z3.If(grp, z3.And(hd(GT, 4), hd(LENO, 4), hd(CH, 8), z3.Implies(lst, z3.And(hd(PLEN, 4), hd(PR, 8)))), hd(DATA, 8))]
    for ok, kid, n, arr in ((grp, T.child(o, i_), T.n(o), free.arr(T, o)), (lst, T.prop(o, i_), T.np(o), free.parr(T, o))):
        out += [z3.Implies(z3.And(ok, n > 0), SZ(arr) >= 8 * n), forall([i_], z3.Implies(z3.And(ok, i_ >= 0, i_ < n), ready(at(arr, 8 * i_), 8)), at(arr, 8 * i_))]
    return out
def blocks_lemmas():
    """the blocks of the free layer are those of INV: the live objects of o..hi(o)"""
    class S: pass
    st = S(); st.h = {hp: z3.Const(hp + '_l', HEAP) for hp in ALLHP}; st.g = {n: z3.Const(n + '_l', HEAP if n in ('kk', 'ini') else ROW) for n in GH}; st.g['nxt'] = z3.Int('nxt_l')
    o, Hi, a = z3.Ints('o_l Hi_l a!'); ck = lambda x: g(st, 'ck', x) == 1; T = H(st); hi = lambda x: z3.If(x == o, Hi, g(st, 'hi', x))
    bl = z3.And(g(st, 'live', b_) == 1, a <= b_, b_ < hi(a)); BL, BX, IX, PX, DJ = free.BL, free.BX, free.IX, free.PX, free.DJ
    D = [forall([a, b_], BL(a, b_) == bl, BL(a, b_)), forall([a, b_], BX(a, b_) == z3.And(BL(a, b_), b_ != a), BX(a, b_)), forall([a], DJ(a) == z3.And(a >= o, z3.Or(a == o, ck(a))), DJ(a))]
    D += [forall([a, b_], F(a, b_) == g(st, 'pos', z3.Select(g(st, 'kk', a), b_)), F(a, b_)) for F in (IX, PX)]
    D += [z3.And(T.u32(o, f) >= 0, T.u32(o, f) < 2**32) for f in (ID, SIZE, GT, LENO, PLEN)]       # 32-bit locations
    D += [q for _, q in INV1(st, o, Hi, False) + INVall(st, o)] + [Hi <= st.g['nxt'], z3.Implies(ck(o), Hi == g(st, 'hi', o)), T.n(o) >= 0]
    return [(f'a tree that was read is one that can be released, block by block ({k})', (D, q)) for k, q in enumerate(free.blocks_def(T, o) + extents(T, st.g['ini'], o))]

class FreeMemLayer(free.FreeLayer):
    name = 'free_mem'; mem = True
    def sizes(self, o): return extents(self.T, INI0, o)
    def on_load(self, eng, st, pv, ty):
        self.access(eng, st, pv); n = 8 if ty.k == 'ptr' else max(1, ty.n // 8); off = pv.offset()
        if eng.is_cell(pv) or isc(pv.obj) and 0 < pv.obj < HEAP0: return
        eng.prove(st, And(le(0, off), le(add(off, n), SZ(Z(pv.obj)))), 'load within the bounds of the object')
        eng.prove(st, ready(z3.Select(z3.Select(INI0, Z(pv.obj)), Z(off)), n), 'load of an initialised value')
    def on_store(self, eng, st, pv, ty, v): eng.prove(st, eng.is_cell(pv), 'nothing is written')
def free_mem_layer():
    L = FreeMemLayer()
    for k in (free.FreeGroup, free.FreeForm, free.FreeProp, free.FreeCAT, free.FreeList, free.FreeRaw, free.FreeChunk, free.FreeTop): L.add(k)
    return L

def mem_layer():
    L = MemLayer(); L.add(type('Find', (FindDefault,), dict(elsewhere=True)))
    for x in (Skip, PadByte, FreeAt, MReadChunk, MReadFd): L.add(x)
    for nm, ks in (('RawChunk', ()), ('Form', (FORM,)), ('Prop', (PROP,)), ('CAT', (CAT,)), ('List', (LIST,))): L.add(type('MFree' + nm, (FreeBody,), dict(fn='IFF_free' + nm, kinds=ks)))
    L.add(mbody('readRawChunk')); L.add(mbody('readGroup', FORM, CAT, PROP, bpk=4, regk=3))
    for k, i in (('Form', FORM), ('CAT', CAT), ('Prop', PROP), ('List', LIST)): L.add(mbody('read' + k, i))
    return L
