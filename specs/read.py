"""C04, C05: reading consumes exactly one framed chunk, and the tree that is read mirrors the file.

A specification parser over the (rigid) contents of a file f, as functions of the position p of a chunk:
  OKC  the chunk can be read;  END  the position after it;  for groups  MP(p,i) the position of the i-th member,
  BP(p,i) the bytes of the body up to it,  NM(p) the number of members,  NPR(p,i) how many of the first i members
  are shared properties of a list, MPOS/PPOS(p,j) the position of the j-th ordinary member / shared property.
src (ghost) maps a chunk in memory to the position it was read from."""
from build import *
from codec import reader, field, DeriveSuccess

Int, Bool = z3.IntSort(), z3.BoolSort()
F = lambda n, k, r=Int: z3.Function(n, *[Int] * k, r)
OKC, END, NMEM = F('OKC', 2, Bool), F('END', 2), F('NMEM', 2)
MP, BP, NPR, MPOS, PPOS = (F(n, 3) for n in ('MP', 'BP', 'NPR', 'MPOS', 'PPOS'))
def be4(f, p): return be(None, f, p, 4)
IDF_, NF_, GTF_ = F('IDF', 2), F('NF', 2), F('GTF', 2)      # ID, size and group type in the file
def IDF(f, p): return IDF_(f, Z(p))
def NF(f, p): return NF_(f, Z(p))
def GTF(f, p): return GTF_(f, Z(p))
def header_def(f, p):
    x = be4(f, Z(p) + 4); return [IDF(f, p) == be4(f, p), NF(f, p) == z3.If(x >= 2**31, x - 2**32, x), GTF(f, p) == be4(f, Z(p) + 8)]
def mx(x): return z3.If(x > 0, x, 0)
def odd(x): return z3.If(x % 2 != 0, 1, 0)
def isgrp(f, p): return isin(IDF(f, p), GROUPS)
def nested(f, p): return z3.And(isgrp(f, p), NF(f, p) >= 4)        # a group with a group type
def BEND(f, p): """end of what the handler reads"""; return z3.If(nested(f, p), MP(f, p, NMEM(f, p)), z3.If(isgrp(f, p), Z(p) + 8, Z(p) + 8 + NF(f, p)))
def BCNT(f, p): """... and how many bytes of the body it counts for that"""; return z3.If(nested(f, p), BP(f, p, NMEM(f, p)), z3.If(isgrp(f, p), 0, NF(f, p)))
def body_ok(f, p): return z3.If(nested(f, p), z3.And(Z(p) + 12 <= LEN(f), z3.ForAll([i_], z3.Implies(z3.And(i_ >= 0, i_ < NMEM(f, p)), OKC(f, MP(f, p, i_))), patterns=[MP(f, p, i_)])), z3.Or(isgrp(f, p), Z(p) + 8 + NF(f, p) <= LEN(f)))
def parse_def(f, p):
    n = NF(f, p); N = NMEM(f, p); p = Z(p)
    return header_def(f, p) + [END(f, p) == BEND(f, p) + mx(n - BCNT(f, p)) + odd(n),
            OKC(f, p) == z3.And(p + 8 <= LEN(f), n >= 0, body_ok(f, p), END(f, p) <= LEN(f))] + members_def(f, p)
def members_def(f, p):
    n = NF(f, p); N = NMEM(f, p)
    return [MP(f, p, 0) == p + 12, BP(f, p, 0) == 4, NPR(f, p, 0) == 0, N >= 0,
            z3.ForAll([i_], z3.Implies(z3.And(i_ >= 0, i_ < N), BP(f, p, i_) < n), patterns=[BP(f, p, i_)]), BP(f, p, N) >= n]
def isprop(f, p, i): return z3.And(IDF(f, p) == LIST, IDF(f, MP(f, p, i)) == PROP)
def member_step(f, p, i):
    q = MP(f, p, i); pr = isprop(f, p, i)
    return [MP(f, p, i + 1) == END(f, q), BP(f, p, i + 1) == BP(f, p, i) + pad(mx(NF(f, q))), NPR(f, p, i + 1) == NPR(f, p, i) + z3.If(pr, 1, 0),
            z3.Implies(pr, PPOS(f, p, NPR(f, p, i)) == q), z3.Implies(z3.Not(pr), MPOS(f, p, i - NPR(f, p, i)) == q)]

def src(st, o): return z3.Select(st.g['src'], Z(o))
x_ = z3.Int('x!')
def chunk_at(c, st, f, x, lo, nm=None, np=None, rows=True):
    """[(name, formula)]: chunk x in memory is what the file has at src(x), apart from what lies in its members"""
    T = H(st); p = src(st, x); N = NMEM(f, p); nx = st.g['nxt']; nest = nested(f, p)
    np = NPR(f, p, N) if np is None else np; nm = N - NPR(f, p, N) if nm is None else nm
    new = lambda o: z3.And(o >= lo, o < nx)
    arr = lambda o: z3.Or(o == 0, z3.And(new(o), src(st, o) < 0))
    kid, pr, d = T.child(x, i_), T.prop(x, i_), T.data(x)
    out = [('ID and size are those in the file', z3.And(T.id(x) == IDF(f, p), T.size(x) == NF(f, p), T.size(x) >= 0)),
           ('group type', z3.Implies(isin(T.id(x), GROUPS), T.gt(x) == z3.If(nest, GTF(f, p), 0))),
           ('number of members', z3.Implies(isin(T.id(x), GROUPS), T.n(x) == z3.If(nest, nm, 0))),
           ('number of shared properties', z3.Implies(T.id(x) == LIST, T.np(x) == z3.If(nest, np, 0))),
           ('buffers are objects of their own', z3.And(z3.Implies(isin(T.id(x), GROUPS), arr(T.sel('PO', x, CH))), z3.Implies(T.id(x) == LIST, arr(T.sel('PO', x, PR))), z3.Implies(z3.Not(isin(T.id(x), GROUPS)), arr(d))))]
    q = [('members, in file order, with their group as parent', kid, z3.Implies(z3.And(isin(T.id(x), GROUPS), i_ >= 0, i_ < T.n(x)), z3.And(new(kid), src(st, kid) >= 0, src(st, kid) == MPOS(f, p, i_), T.parent(kid) == x))),
         ('shared properties, in file order, with their list as parent', pr, z3.Implies(z3.And(T.id(x) == LIST, i_ >= 0, i_ < T.np(x)), z3.And(new(pr), src(st, pr) >= 0, src(st, pr) == PPOS(f, p, i_), T.parent(pr) == x))),
         ('data bytes', z3.Select(z3.Select(st.h['M8'], d), i_), z3.Implies(z3.And(z3.Not(isin(T.id(x), GROUPS)), i_ >= 0, i_ < T.size(x)), T.byte(x, i_) == Dc(f, p + 8 + i_)))]
    return out, q
def mirror(c, st, f, lo):
    """every chunk created since lo is what the file has at its position"""
    hd, qs = chunk_at(c, st, f, x_, lo); T = H(st)
    dom = z3.And(x_ >= lo, x_ < st.g['nxt'], src(st, x_) >= 0)
    return [(f'every chunk read: {nm}', forall([x_], z3.Implies(dom, q), T.id(x_), T.u32(x_, SIZE))) for nm, q in hd] + [(f'every chunk read: {nm}', forall([x_, i_], z3.Implies(dom, q), (T.id(x_), t) if nm == 'data bytes' else t)) for nm, t, q in qs]
def mirror1(c, st, f, x, lo, **kw):
    hd, qs = chunk_at(c, st, f, Z(x), lo, **kw)
    return hd + [(nm, forall([i_], q, t)) for nm, t, q in qs]

class ReadLayer(BuildLayer):
    name = 'read'
    def init_state(self, eng):
        st = super().init_state(eng); files(st); st.g['oom'] = fresh('oom', 'Bool'); st.g['src'] = fresh('src', ROW)
        st.assume(z3.ForAll([o_], z3.Implies(o_ >= st.g['nxt'], src(st, o_) == -1), patterns=[src(st, o_)])); return st
    def lemmas(self): return []
def later(c): return ('the fault flags are sticky', And(Imp(c.old.g['fault'], c.new.g['fault']), Imp(c.old.g['oom'], c.new.g['oom'])))
def trouble(c): return Or(c.new.g['fault'], c.new.g['oom'])
def quiet(c): return And(Iff(c.new.g['fault'], c.old.g['fault']), Iff(c.new.g['oom'], c.old.g['oom']))
def moved(c, f, p): return c.new.g['FP'] == z3.Store(c.old.g['FP'], Z(f), Z(p))
TWOGB = ('the file is smaller than 2 GiB', )
def boolres(c): return ('result is TRUE or FALSE', And(le(0, c.ret.s()), le(c.ret.s(), 1)))

class Skip(Contract):
    fn = 'IFF_skipUnknownBytes'; modifies = ('FP', 'fault')
    def requires(s, c): return [('file position is not negative', fp(c.old, c.o(0)) >= 0), ('sizes', And(c.s(2) >= 0, c.s(3) >= 0))]
    def rest(s, c): return mx(c.s(2) - c.s(3))
    def ensures(s, c):
        f = c.o(0); p = fp(c.old, f); e = p + s.rest(c); ok = c.rb; q, q0 = c.new.g['fault'], c.old.g['fault']
        return [boolres(c), ('exactly the remaining bytes are consumed', Imp(ok, And(moved(c, f, e), Or(s.rest(c) == 0, e <= LEN(f)), Iff(q, q0)))), ('failure only at the end of the file or on an I/O error', Imp(Not(ok), Or(e > LEN(f), q))), ('sticky', Imp(q0, q))]
    def hints(s, c, L):
        f = c.o(0); p = fp(c.old, f)
        return [('bytes skipped so far', And(L.st.g['FP'] == z3.Store(c.old.g['FP'], f, p + L.it), Or(L.it == 0, p + L.it <= LEN(f)))), ('within', L.it <= s.rest(c)), ('no fault', Iff(L.st.g['fault'], c.old.g['fault']))] + \
            block_hints(L, s.rest(c), None, lambda k: z3.And(L.st.g['FP'] == z3.Store(c.old.g['FP'], f, p + k), z3.Or(k <= 0, p + k <= LEN(f))))
class PadByte(Contract):
    fn = 'IFF_readPaddingByte'; modifies = ('FP', 'fault')
    def requires(s, c): return [('file position is not negative', fp(c.old, c.o(0)) >= 0), ('size', c.s(1) >= 0)]
    def ensures(s, c):
        f = c.o(0); p = fp(c.old, f); e = p + odd(c.s(1)); ok = c.rb; q, q0 = c.new.g['fault'], c.old.g['fault']
        return [boolres(c), ('a pad byte is consumed exactly if the size is odd', Imp(ok, And(moved(c, f, e), Or(c.s(1) % 2 == 0, e <= LEN(f)), Iff(q, q0)))), ('failure only at the end of the file or on an I/O error', Imp(Not(ok), And(c.s(1) % 2 != 0, Or(e > LEN(f), q)))), ('sticky', Imp(q0, q))]

def reg_req(c, k): return ('the registry is the one passed in', peq(c.a[k], PV(c.eng.prog.ids['IFF_defaultChunkRegistry'])))
class ReadBody(Contract):
    """readExtensionChunkFields of a built-in chunk type"""
    bpk = 3; regk = 2; kinds = ()
    out = property(lambda s: {s.bpk: 'i32'}); modifies = property(lambda s: ALLHP + ('FP', 'fault', 'oom', 'nxt', 'live', 'src', ('out', s.bpk)))
    def default_arg(s, c, k, ty, st): return PV(c.eng.prog.ids['IFF_defaultChunkRegistry']) if k == s.regk else None
    def pos(s, c): return fp(c.old, c.o(0)) - 8
    def kind(s, T, x): return isin(T.id(x), s.kinds) if s.kinds else z3.Not(isin(T.id(x), GROUPS))
    def requires(s, c):
        T = H(c.old); f, x = c.o(0), c.o(1); p = s.pos(c); d = T.data(x)
        return [('the chunk is the one whose header was just read', And(f > 0, p >= 0, p + 8 <= LEN(f), T.id(x) == IDF(f, p), T.size(x) == NF(f, p), T.size(x) >= 0, src(c.old, x) == p, x > HEAP0, x < c.old.g['nxt'], T.parent(x) == 0)),
                ('nothing is counted yet', c.old.loc(c.a[s.bpk]).s() == 0), ('it is of the right kind', s.kind(T, x)), reg_req(c, s.regk), ('the file is smaller than 2 GiB', LEN(f) < 2**31 - 16), s.fresh_src(c.old)] + s.empty(c, T, x)
    def fresh_src(s, st): return ('only chunks have a position', forall([o_], z3.Implies(o_ >= st.g['nxt'], src(st, o_) < 0), src(st, o_)))
    def empty(s, c, T, x):
        if not s.kinds: return [('it has a buffer', And(T.data(x) > HEAP0, T.data(x) < c.old.g['nxt'], T.data(x) != x, src(c.old, T.data(x)) < 0))]
        q = [('it is empty', And(T.gt(x) == 0, T.n(x) == 0, T.sel('PO', x, CH) == 0))]
        return q + ([('it has no shared properties', And(T.np(x) == 0, T.sel('PO', x, PR) == 0))] if LIST in s.kinds else [])
    def facts(s, c): return parse_def(c.o(0), s.pos(c))
    def framed(s, c, st):
        x = c.o(1); T = H(c.old); d = T.data(x); n0 = c.old.g['nxt']
        fr = lambda hp, *ex: (f'existing objects unchanged ({hp})', forall([o_], z3.Implies(z3.And(o_ < n0, *[o_ != e for e in ex]), z3.Select(st.h[hp], o_) == z3.Select(c.old.h[hp], o_)), z3.Select(st.h[hp], o_)))
        return [fr('PO', x), fr('M32', x), fr('M8', *([] if s.kinds else [d])),
                ('positions of existing objects unchanged', forall([o_], z3.Implies(o_ < n0, src(st, o_) == src(c.old, o_)), src(st, o_))),
                ('existing objects stay allocated', forall([o_], z3.Implies(o_ < n0, live(st, o_) == live(c.old, o_)), live(st, o_))), s.fresh_src(st), ('objects only grow', st.g['nxt'] >= n0),
                ('the parent of the chunk is unchanged', H(st).parent(x) == 0)] + ([] if s.kinds else [('the buffer stays the same', H(st).data(x) == d)])
    def ensures(s, c):
        f, x = c.o(0), c.o(1); p = s.pos(c); ok = c.rb; n0 = c.old.g['nxt']
        E = [boolres(c), later(c), ('success only if the body is in the file', Imp(ok, And(body_ok(f, p), quiet(c)))),
             ('the bytes of the body are consumed', Imp(ok, moved(c, f, BEND(f, p)))), ('and counted', Imp(ok, eq(c.new.loc(c.a[s.bpk]).s(), BCNT(f, p)))),
             ('the body does not end before the bytes counted for it', Imp(ok, BEND(f, p) >= p + 8 + BCNT(f, p))), ('nor after the end of the file', Imp(ok, BEND(f, p) <= LEN(f))),
             ('failure only if the body is not in the file, or on an I/O error or lack of memory', Imp(Not(ok), Or(Not(body_ok(f, p)), trouble(c))))]
        return E + [(nm, Imp(ok, q)) for nm, q in s.framed(c, c.new) + mirror1(c, c.new, f, x, z3.If(x < n0, x, n0) if s.kinds else I(0)) + mirror(c, c.new, f, n0)]
    def loop_facts(s, c, L): return member_step(c.o(0), s.pos(c), L.it) + parse_def(c.o(0), MP(c.o(0), s.pos(c), L.it))
    def hints(s, c, L):
        f, x = c.o(0), c.o(1); p = s.pos(c); st = L.st; it = L.it; T = H(st); n0 = c.old.g['nxt']; np = NPR(f, p, it); q = MP(f, p, it)
        out = [('the file is at the next member', And(st.g['FP'] == z3.Store(c.old.g['FP'], f, q), q <= LEN(f), q >= p + 8 + BP(f, p, it), BP(f, p, it) >= 4)), ('members within', it <= NMEM(f, p)), ('every member counts', 8 * it + 4 <= BP(f, p, it)),
               ('no fault', And(Iff(st.g['fault'], c.old.g['fault']), Iff(st.g['oom'], c.old.g['oom']))), ('a group type', NF(f, p) >= 4),
               ('members so far can be read', z3.ForAll([i_], z3.Implies(z3.And(i_ >= 0, i_ < it), OKC(f, MP(f, p, i_))), patterns=[MP(f, p, i_)])),
               ('shared properties are members', And(np >= 0, np <= it, Or(IDF(f, p) == LIST, np == 0)))]
        for k, (v0, v1) in L.cell.items():
            if isinstance(v1, IV): out.append((f'{k}: bytes so far', eq(v1.s(), BP(f, p, it))))
        for hp in ('CH', 'PR'):
            if hp == 'PR' and LIST not in s.kinds: continue
            a = T.sel('PO', x, CH if hp == 'CH' else PR); out.append((f'array {hp}', Or(a == 0, And(a >= n0, a < st.g['nxt'], src(st, a) < 0, live(st, a) == 1))))
        if LIST in s.kinds: out.append(('two arrays', Or(T.sel('PO', x, CH) == 0, T.sel('PO', x, CH) != T.sel('PO', x, PR))))
        if not s.kinds:     # data read in blocks
            n, d = NF(f, p), H(c.old).data(x)
            out += block_hints(L, n, d, lambda k: z3.And(st.g['FP'] == z3.Store(c.old.g['FP'], f, p + 8 + k), p + 8 + k <= LEN(f), forall([i_], z3.Implies(z3.And(i_ >= 0, i_ < k), z3.Select(z3.Select(st.h['M8'], d), i_) == Dc(f, p + 8 + i_)), z3.Select(z3.Select(st.h['M8'], d), i_))))
        return out + s.framed(c, st) + mirror1(c, st, f, x, n0, nm=it - np, np=np) + mirror(c, st, f, n0)
def body(name, *kinds, **kw): return type(name, (ReadBody,), dict(fn='IFF_' + name, kinds=kinds, **kw))

class FreeStub(Contract):
    """releasing the partial tree: what it does is proved in the memory layer; nothing is claimed here about memory after a failure"""
    fn = 'IFF_freeChunk'; modifies = ('live',); elsewhere = True
class ReadChunk(Contract):
    fn = 'IFF_readChunk'; modifies = ALLHP + ('FP', 'fault', 'oom', 'nxt', 'live', 'src')
    def default_arg(s, c, k, ty, st): return PV(c.eng.prog.ids['IFF_defaultChunkRegistry']) if k == 2 else None
    def requires(s, c): return [('file position is not negative', fp(c.old, c.o(0)) >= 0), ('file given', c.o(0) > 0), ('the file is smaller than 2 GiB', LEN(c.o(0)) < 2**31 - 16), *([reg_req(c, 2)] if s.fn == 'IFF_readChunk' else []), ReadBody.fresh_src(s, c.old), ('objects', c.old.g['nxt'] > HEAP0)]
    def facts(s, c): return parse_def(c.o(0), fp(c.old, c.o(0)))
    def ensures(s, c):
        f = c.o(0); p = fp(c.old, f); r = c.ro; ok = r != 0; n0 = c.old.g['nxt']; st = c.new; N = H(st)
        fr = lambda hp: (f'existing objects unchanged ({hp})', forall([o_], z3.Implies(o_ < n0, z3.Select(st.h[hp], o_) == z3.Select(c.old.h[hp], o_)), z3.Select(st.h[hp], o_)))
        E = [('a chunk is returned only if one is in the file', Imp(ok, And(OKC(f, p), quiet(c)))), ('exactly the chunk is consumed', Imp(ok, moved(c, f, END(f, p)))), ('header, body and pad byte are consumed at least', Imp(ok, END(f, p) >= p + pad(NF(f, p)))),
             ('nothing is returned only if none is in the file, or on an I/O error or lack of memory', Imp(Not(ok), Or(Not(OKC(f, p)), trouble(c)))), later(c)]
        S = [('a new chunk without a parent, at its position', And(r >= n0, r < st.g['nxt'], src(st, r) == p, N.parent(r) == 0)), fr('PO'), fr('M32'), fr('M8'),
             ('positions of existing objects unchanged', forall([o_], z3.Implies(o_ < n0, src(st, o_) == src(c.old, o_)), src(st, o_))),
             ('existing objects stay allocated', forall([o_], z3.Implies(o_ < n0, live(st, o_) == live(c.old, o_)), live(st, o_))), ReadBody.fresh_src(s, st), ('objects only grow', st.g['nxt'] >= n0)]
        return E + [(nm, Imp(ok, q)) for nm, q in S + mirror(c, st, f, n0)]

class ReadFd(ReadChunk):
    """the first chunk of a stream; what follows it is only looked at to warn about it"""
    fn = 'IFF_readFd'
    def default_arg(s, c, k, ty, st): return PV(c.eng.prog.ids['IFF_defaultChunkRegistry']) if k == 1 else None
    def cases(s): return ['NULL registry', 'registry given']
    def setup(s, c, st, case): c.a[1] = PV(0) if case == 'NULL registry' else PV(c.eng.prog.ids['IFF_defaultChunkRegistry'])
    def requires(s, c): return super().requires(c) + [('the registry is NULL or the built-in one', Or(peq(c.a[1], PV(0)), peq(c.a[1], PV(c.eng.prog.ids['IFF_defaultChunkRegistry']))))]
    def ensures(s, c):
        f = c.o(0); p = fp(c.old, f); ok = c.ro != 0; q = fp(c.new, f)
        E = [x for x in super().ensures(c) if x[0] not in ('a chunk is returned only if one is in the file', 'exactly the chunk is consumed')]
        return E + [('a chunk is returned only if one is in the file', Imp(ok, OKC(f, p))), ('the chunk is consumed, and at most one byte is looked at beyond it', Imp(ok, Or(q == END(f, p), And(q == END(f, p) + 1, q <= LEN(f)), c.new.g['fault'])))]

class CreateAt(Create):
    modifies = Create.modifies + ('oom',)
    def ensures(s, c): return super().ensures(c) + [('failure only for lack of memory', And(Imp(c.ro == 0, c.new.g['oom']), Imp(c.ro != 0, Iff(c.new.g['oom'], c.old.g['oom'])), Imp(c.old.g['oom'], c.new.g['oom'])))]
    def apply(s, eng, a, st):
        old = st.copy(); c = Ctx(eng, s, a, old); out = []
        for nm, q in s.requires(c): eng.prove(st, q, f'call {s.fn}: requires {nm}'); st.assume(q)
        s.havoc(c, st); c.ret = PV(fresh('r_' + s.fn)); st.assume(c.ret.obj >= 0); c.new = st
        for nm, q in s.ensures(c): st.assume(q)
        s1, s2 = feas(eng, st, c.ro != 0), feas(eng, st, c.ro == 0)
        if s1:
            if eng.ctx.con.fn == 'IFF_readChunk': s1.g['src'] = z3.Store(old.g['src'], c.ro, fp(eng.ctx.old, eng.ctx.o(0)))     # ghost: the position the new chunk is read from
            out.append((s1, c.ret))
        if s2: out.append((s2, PV(0)))
        return out
def read_layer():
    L = ReadLayer()
    for nm, n, sg in (('Id', 4, False), ('Long', 4, True), ('ULong', 4, False)): L.add(reader('IFF_read' + nm, n, sg))
    L.add(field('IFF_readIdField', 4, True)); L.add(DeriveSuccess); L.add(type('Find', (FindDefault,), dict(elsewhere=True)))
    L.add(Skip); L.add(PadByte); L.add(Inc); L.add(adder('IFF_attachToGroup', size=False)); L.add(FreeStub); L.add(InitGroup)
    for x in CREATORS: L.add(type(x.__name__, (CreateAt,), {k: v for k, v in vars(x).items() if not k.startswith('__')}))
    L.add(body('readRawChunk')); L.add(body('readGroup', FORM, CAT, PROP, bpk=4, regk=3))
    for k, i in (('Form', FORM), ('CAT', CAT), ('Prop', PROP), ('List', LIST)): L.add(body('read' + k, i))
    L.add(ReadChunk); L.add(ReadFd)
    return L
