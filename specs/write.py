"""C03: what is written for a chunk.  The file's final contents are W(f,k) (rigid, an output is only appended to);
WROTE(f,p,o) says that the encoding of chunk o lies at position p; its length is WL(o)."""
from sizes import *
from codec import writer, field, DeriveSuccess

Int = z3.IntSort()
WROTE = z3.Function('WROTE', Int, Int, Int, z3.BoolSort())
WL = z3.Function('WL', Int, Int)
PP = z3.Function('PP', Int, Int, Int)       # offset of the i-th shared property in the encoding of a list
CP = z3.Function('CP', Int, Int, Int)       # offset of the i-th member in the encoding of a group
i_, k_ = z3.Int('i!'), z3.Int('k!')
def mx(x): return z3.If(x > 0, x, 0)
def odd(x): return z3.If(x % 2 != 0, 1, 0)
def be_at(f, p, x): return [Wc(f, p + i) == Z(IV(32, x, 0, 2**32-1).byte(3 - i)) for i in range(4)]
def nest(T, o): return z3.And(isin(T.id(o), GROUPS), T.size(o) >= 4)
def nprops(T, o): return z3.If(T.id(o) == LIST, T.np(o), 0)
def bend(T, o): return z3.If(nest(T, o), CP(o, T.n(o)), 8 + z3.If(isin(T.id(o), GROUPS), 0, T.size(o)))     # end of what the handler writes
def counted(T, o): return z3.If(nest(T, o), body_size(T, o), z3.If(isin(T.id(o), GROUPS), 0, T.size(o)))
def wrote_body(T, f, p, o, nc=None, np=None):
    nc = T.n(o) if nc is None else nc; np = nprops(T, o) if np is None else np
    return z3.And(z3.Implies(z3.Not(isin(T.id(o), GROUPS)), z3.ForAll([k_], z3.Implies(z3.And(k_ >= 0, k_ < T.size(o)), Wc(f, p + 8 + k_) == T.byte(o, k_)), patterns=[T.byte(o, k_)])),
                  z3.Implies(nest(T, o), z3.And(*be_at(f, p + 8, T.gt(o)), members(T, f, p, o, nc, np))))
def members(T, f, p, o, nc, np):
    return z3.And(z3.ForAll([i_], z3.Implies(z3.And(i_ >= 0, i_ < np), WROTE(f, p + PP(o, i_), T.prop(o, i_))), patterns=[T.prop(o, i_)]),
                  z3.ForAll([i_], z3.Implies(z3.And(i_ >= 0, i_ < nc), WROTE(f, p + CP(o, i_), T.child(o, i_))), patterns=[T.child(o, i_)]))
def zeros(f, a, b): return z3.ForAll([k_], z3.Implies(z3.And(k_ >= a, k_ < b), Wc(f, k_) == 0), patterns=[Wc(f, k_)])
def wrote_def(T, f, p, o):
    e = p + bend(T, o); fill = mx(T.size(o) - counted(T, o))
    return [WROTE(f, p, o) == z3.And(*be_at(f, p, T.id(o)), *be_at(f, p + 4, T.u32(o, SIZE)), wrote_body(T, f, p, o), zeros(f, e, e + fill), z3.Implies(T.size(o) % 2 != 0, Wc(f, e + fill) == 0)),
            WL(o) == bend(T, o) + fill + odd(T.size(o))] + layout_def(T, o)
def layout_def(T, o): return [PP(o, 0) == 12, CP(o, 0) == z3.If(T.id(o) == LIST, PP(o, T.np(o)), 12)]
def layout_step(T, o, i): return [PP(o, i + 1) == PP(o, i) + WL(T.prop(o, i)), CP(o, i + 1) == CP(o, i) + WL(T.child(o, i))]

class WriteLayer(PureLayer):
    name = 'write'
    def init_state(self, eng):
        st = super().init_state(eng); files(st); st.g['oom'] = fresh('oom', 'Bool'); return st
def bad(c): return Or(c.new.g['fault'], c.new.g['oom'])
def quiet(c): return And(Iff(c.new.g['fault'], c.old.g['fault']), Iff(c.new.g['oom'], c.old.g['oom']))
def sticky(c): return ('the fault flags are sticky', And(Imp(c.old.g['fault'], c.new.g['fault']), Imp(c.old.g['oom'], c.new.g['oom'])))
def moved(c, f, p): return c.new.g['FP'] == z3.Store(c.old.g['FP'], Z(f), Z(p))
def boolres(c): return ('result is TRUE or FALSE', And(le(0, c.ret.s()), le(c.ret.s(), 1)))
class WB(PureContract):
    modifies = ('FP', 'fault', 'oom')
    def ensures(s, c):
        f = c.o(0); p = fp(c.old, f); ok = c.rb
        return [boolres(c), sticky(c), ('success only if everything was accepted', Imp(ok, quiet(c))), ('failure only on an I/O error or lack of memory', Imp(Not(ok), bad(c))),
                ('the file advances by what is written', Imp(ok, moved(c, f, p + s.length(c, p)))), (s.says, Imp(ok, s.bytes(c, f, p))), ('the file never moves back', Imp(ok, s.length(c, p) >= 0))]
class Filler(WB):
    fn = 'IFF_writeZeroFillerBytes'; says = 'zero bytes up to the declared size'
    def requires(s, c): return [('file position is not negative', fp(c.old, c.o(0)) >= 0), ('sizes', And(c.s(2) >= 0, c.s(3) >= 0))]
    def length(s, c, p): return mx(c.s(2) - c.s(3))
    def bytes(s, c, f, p): return zeros(f, p, p + s.length(c, p))
    def hints(s, c, L):
        f = c.o(0); p = fp(c.old, f)
        return [('so far', And(L.st.g['FP'] == z3.Store(c.old.g['FP'], f, p + L.it), zeros(f, p, p + L.it), quiet(View(c, L.st)))), ('within', L.it <= s.length(c, p)), ('no fault', quiet(View(c, L.st)))] + \
            block_hints(L, s.length(c, p), None, lambda x: z3.And(L.st.g['FP'] == z3.Store(c.old.g['FP'], f, p + x), zeros(f, p, p + x)))
class View:
    def __init__(s, c, st): s.old, s.new = c.old, st
class PadOut(WB):
    fn = 'IFF_writePaddingByte'; says = 'one zero byte exactly if the size is odd'
    def requires(s, c): return [('file position is not negative', fp(c.old, c.o(0)) >= 0), ('size', c.s(1) >= 0)]
    def length(s, c, p): return odd(c.s(1))
    def bytes(s, c, f, p): return z3.Implies(c.s(1) % 2 != 0, Wc(f, p) == 0)
class WriteBody(WB):
    """writeExtensionChunkFields of a built-in chunk type"""
    at = 1; reg = 2; bpk = 3; kinds = None; says = 'the body is written: data, or group type and all members in order'
    out = property(lambda s: {s.bpk: 'i32'}); modifies = property(lambda s: ('FP', 'fault', 'oom', ('out', s.bpk)))
    trees = (1,); nonnull = (1,)
    def tree_requires(s, c):
        T = s.layer.T; o = c.o(1)
        return super().tree_requires(c) + [('sizes stay below 2 GiB', WS(o)), ('file position', fp(c.old, c.o(0)) >= 8), ('nothing is counted yet', c.old.loc(c.a[s.bpk]).s() == 0),
                                           ('the chunk is of the right kind', isin(T.id(o), s.kinds) if s.kinds else z3.Not(isin(T.id(o), GROUPS)))]
    def pos(s, c): return fp(c.old, c.o(0)) - 8
    def defs(s, c): T = s.layer.T; o = c.o(1); return layout_def(T, o) + ws_unfold(T, o)
    def length(s, c, p): return bend(s.layer.T, c.o(1)) - 8
    def bytes(s, c, f, p): return wrote_body(s.layer.T, f, p - 8, c.o(1))
    def ensures(s, c): return super().ensures(c) + [('the bytes are counted', Imp(c.rb, c.new.loc(c.a[s.bpk]).s() == counted(s.layer.T, c.o(1))))]
    def loop_facts(s, c, L):
        T = s.layer.T; o = c.o(1); return layout_step(T, o, L.it) + sum_step(T, o, L.it)
    def folds(s, c, L): return [('SUMC', lambda k: SUMC(c.o(1), k)), ('SUMP', lambda k: SUMP(c.o(1), k))]
    def hints(s, c, L):
        T = s.layer.T; f, o = c.o(0), c.o(1); p = s.pos(c); st = L.st; it = L.it
        at = lambda e: st.g['FP'] == z3.Store(c.old.g['FP'], f, p + e)
        return [('no fault', quiet(View(c, st))), ('members within', it <= T.n(o)), ('properties within', it <= T.np(o)), ('members lie beyond the group type', CP(o, it) >= 12), ('properties lie beyond the group type', PP(o, it) >= 12), ('at the next member', at(CP(o, it))), ('at the next property', at(PP(o, it))),
                ('members so far are written', members(T, f, p, o, it, 0)), ('properties so far are written', members(T, f, p, o, 0, it)), ('a group type', T.size(o) >= 4)] + (s.block_hints(c, L) if not s.kinds else [])
    def block_hints(s, c, L):
        """data written in blocks: a counter says how much of it is written"""
        T = s.layer.T; f, o = c.o(0), c.o(1); p = s.pos(c)
        return block_hints(L, T.size(o), T.data(o), lambda x: z3.And(L.st.g['FP'] == z3.Store(c.old.g['FP'], f, p + 8 + x), forall([k_], z3.Implies(z3.And(k_ >= 0, k_ < x), Wc(f, p + 8 + k_) == T.byte(o, k_)), T.byte(o, k_), Wc(f, p + 8 + k_))))
def body(name, *kinds, **kw): return type(name, (WriteBody,), dict(fn='IFF_' + name, kinds=kinds, **kw))
class WriteChunk(WB):
    fn = 'IFF_writeChunk'; trees = (1,); nonnull = (1,); reg = 3; says = 'ID, size, body, filler and pad byte are written'
    def tree_requires(s, c): return super().tree_requires(c) + [('sizes stay below 2 GiB', WS(c.o(1))), ('file position', fp(c.old, c.o(0)) >= 0)]
    def defs(s, c): T = s.layer.T; return wrote_def(T, c.o(0), fp(c.old, c.o(0)), c.o(1)) + ws_unfold(T, c.o(1))
    def length(s, c, p): return WL(c.o(1))
    def bytes(s, c, f, p): return WROTE(f, p, c.o(1))
class WriteFd(WriteChunk):
    fn = 'IFF_writeFd'; reg = 2
    def defs(s, c): return []
def write_layer():
    L = WriteLayer(); L.contracts.clear(); L.add(type('Find', (FindDefault,), dict(elsewhere=True)))
    for nm, n, sg in (('Id', 4, False), ('Long', 4, True), ('ULong', 4, False)): L.add(writer('IFF_write' + nm, n, sg))
    L.add(field('IFF_writeIdField', 4, False)); L.add(DeriveSuccess); L.add(Filler); L.add(PadOut)
    L.add(body('writeRawChunk'))
    for k, i in (('Form', (FORM, PROP)), ('CAT', (CAT,)), ('Prop', (PROP,)), ('List', (LIST,))): L.add(body('write' + k, *i))
    L.add(WriteChunk); L.add(nullable_registry(WriteFd))
    L.lemmas = sum_lemmas
    return L
