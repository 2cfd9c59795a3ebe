"""C18, C19: the two tools, over the contracts of the library functions they are made of (each proved from its code as a root of the
same property).  Ghosts:
  own[t] = 1: the tree t was handed out by a read and has not been released or given away;  nr: number of reads, RN(k), RT(k): name and result of the k-th
  nprint, printed: number of trees printed and the last one;  chatter: other output to the standard output
  nw, wchunk, wname, wok, wPO, wM32: number of files written, and the last one: tree, name, success, memory at that time"""
from build import *

Int = z3.IntSort(); B = z3.BoolSort()
RN = z3.Function('RN', Int, Int); RT = z3.Function('RT', Int, Int); RIX = z3.Function('RIX', Int, Int)
OKT = z3.Function('OKT', Int, B)          # the conformance check accepts this tree
def own(st, o): return z3.Select(st.g['own'], Z(o))
def default_registry(c, k): return ('the built-in registry', Or(peq(c.a[k], PV(0)), peq(c.a[k], PV(c.eng.prog.ids['IFF_defaultChunkRegistry']))))
def std_out(eng, name):
    def h(eng, st, a, ins):
        if name in ('fprintf', 'fputs', 'fputc', 'putc', 'fwrite'):
            f = a[0 if name == 'fprintf' else -1 if name == 'fwrite' else 1]
            e = eng.prog.resolve('stderr', eng.callstack[-1].module); ok = eq(f.obj, st.p(e, 0))
        else: ok = False
        st.g['chatter'] = z3.If(Z(ok) if not isinstance(ok, bool) else z3.BoolVal(ok), st.g['chatter'], st.g['chatter'] + 1)
        x = freshint(32, 'n', True); st.assume(rangefact(x)); return [(st, x)]
    return h
class ToolLayer(BuildLayer):
    name = 'tool'
    def __init__(self):
        super().__init__()
        for n in ('printf', 'puts', 'putchar', 'fprintf', 'fputs', 'fputc', 'putc', 'fwrite', 'vprintf'): self.libc[n] = std_out(None, n)
    def init_state(self, eng):
        st = super().init_state(eng); st.g['own'] = fresh('own', ROW)
        for g in ('nr', 'nprint', 'printed', 'chatter', 'nw', 'wchunk', 'wname'): st.g[g] = fresh(g)
        st.g['wok'] = fresh('wok', 'Bool'); st.g['wPO'] = fresh('wPO', HEAP); st.g['wM32'] = fresh('wM32', HEAP)
        st.g['nr'] = I(0); st.assume(st.g['nw'] >= 0)       # reads are numbered from the start of the function at hand
        st.assume(z3.ForAll([o_], z3.Implies(z3.Or(o_ >= st.g['nxt'], o_ <= HEAP0), own(st, o_) == 0), patterns=[own(st, o_)]))
        return st
    def lemmas(self): return []
class Lib(Contract): elsewhere = True
class Read(Lib):
    modifies = ALLHP + ('nxt', 'own', 'nr')
    def requires(s, c): return [default_registry(c, 1)]
    def ensures(s, c):
        k, r = c.old.g['nr'], c.ro; N = H(c.new)
        return [('one more file is read', And(c.new.g['nr'] == k + 1, RN(k) == c.o(0), RT(k) == r, c.old.g['nxt'] <= c.new.g['nxt'])),
                ('a new tree, or nothing', Or(r == 0, And(r >= c.old.g['nxt'], r < c.new.g['nxt'], r > HEAP0, RIX(r) == k, N.size(r) >= 0, N.id(r) >= 0, N.id(r) < 2**32, N.gt(r) >= 0, N.gt(r) < 2**32))),
                ('it belongs to the caller', c.new.g['own'] == z3.If(r == 0, c.old.g['own'], z3.Store(c.old.g['own'], r, I(1)))),
                ('nothing beyond is owned', forall([o_], z3.Implies(o_ >= c.new.g['nxt'], And(own(c.new, o_) == 0, live(c.new, o_) == 0)), own(c.new, o_)))] + [others(c, c.new, hp) for hp in ALLHP]
class IffRead(Read): fn = 'IFF_read'
class IffReadFile(Read): fn = 'IFF_readFile'
class IffCheck(Lib):
    fn = 'IFF_check'
    def requires(s, c): return [('a tree that is allocated', own(c.old, c.o(0)) == 1), default_registry(c, 1)]
    def ensures(s, c): return [('true exactly if the tree conforms', Iff(c.rb, OKT(c.o(0)))), ('conforming trees are forms, concatenations and lists', Imp(c.rb, isin(H(c.old).id(c.o(0)), (FORM, CAT, LIST)))), ('', And(c.ret.s() >= 0, c.ret.s() <= 1))]
class IffPrint(Lib):
    fn = 'IFF_print'; modifies = ('nprint', 'printed')
    def requires(s, c): return [('a tree that is allocated', own(c.old, c.o(0)) == 1), default_registry(c, 2), ('at indentation level 0', c.u(1) == 0)]
    def ensures(s, c): return [('it is printed', And(c.new.g['nprint'] == c.old.g['nprint'] + 1, c.new.g['printed'] == c.o(0)))]
class FreeTree(Lib):
    fn = 'IFF_free'; modifies = ('own',)
    def requires(s, c): return [('a tree that is allocated', own(c.old, c.o(0)) == 1), default_registry(c, 1)]
    def ensures(s, c): return [('the tree is released', c.new.g['own'] == z3.Store(c.old.g['own'], c.o(0), I(0)))]
class PrettyPrint(Contract):
    fn = 'IFF_prettyPrint'; modifies = ALLHP + ('nxt', 'own', 'nr', 'nprint', 'printed')
    def ensures(s, c):
        k = c.old.g['nr']; t = RT(k); opt = Z(slice_expr(cut(c.a[1].slices(), 0, 1))) == 1 if False else c.u(1) % 2 == 1
        good = And(t != 0, Or(opt, OKT(t))); g, g0 = c.new.g, c.old.g
        return [('one input is read, the one named', And(g['nr'] == k + 1, RN(k) == c.o(0))), ('success exactly if it could be read and conforms or checking is disabled', Iff(c.ret.u() == 0, good)),
                ('the tree is printed once, exactly on success', And(g['nprint'] == g0['nprint'] + z3.If(Z(good), 1, 0), Imp(good, g['printed'] == t))),
                ('nothing else is printed', g['chatter'] == g0['chatter']), ('everything read is released exactly once', forall([o_], own(c.new, o_) == own(c.old, o_), own(c.new, o_)))]
def pp_layer():
    L = ToolLayer(); L.name = 'pp'
    for k in (IffRead, IffReadFile, IffCheck, IffPrint, FreeTree, PrettyPrint): L.add(k)
    return L

# ---------------------------------------------------------------- joining
JS = z3.Function('JS', Int, Int); CT = z3.Function('CTJ', Int, Int)    # encoded sizes of the first k inputs; contents type of the first k inputs
SZT = z3.Function('SZT', Int, Int); GTT = z3.Function('GTT', Int, Int) # size and group type of the k-th input when it was read
def GOOD(k): return z3.And(RT(k) != 0, OKT(RT(k)))
class JoinReadFile(IffReadFile):
    def ensures(s, c):
        k, r = c.old.g['nr'], c.ro; N = H(c.new)
        return super().ensures(c) + [('', Imp(r != 0, And(SZT(k) == N.size(r), GTT(k) == N.gt(r))))]
class Empty(Create):
    fn = 'IFF_createEmptyCAT'; elsewhere = True; kind = GROUP; id = K(CAT); size = K(4); gt = K(JJJJ)
class Append(Add): fn = 'IFF_addToCATAndUpdateContentsType'; contents = True; elsewhere = True
class Write(Lib):
    fn = 'IFF_write'; modifies = ('nw', 'wchunk', 'wname', 'wok', 'wPO', 'wM32')
    def requires(s, c): return [('a chunk that is allocated', Or(live(c.old, c.o(1)) == 1, own(c.old, c.o(1)) == 1)), default_registry(c, 2)]
    def ensures(s, c):
        g = c.new.g
        return [('', And(g['nw'] == c.old.g['nw'] + 1, g['wchunk'] == c.o(1), g['wname'] == c.o(0), Iff(g['wok'], c.rb), g['wPO'] == c.old.h['PO'], g['wM32'] == c.old.h['M32']))]
class FreeAny(Lib):
    """a tree that was read, or a group made here with members that were read (IX tells which read a member comes from)"""
    fn = 'IFF_free'; modifies = ('own', 'live')
    def arr(s, c): return H(c.old).sel('PO', c.o(0), CH)
    def requires(s, c):
        T, o = H(c.old), c.o(0); a = s.arr(c)
        made = And(live(c.old, o) == 1, T.id(o) == CAT, Or(And(a == 0, T.n(o) == 0), live(c.old, a) == 1, ), a != o, forall([i_], z3.Implies(z3.And(i_ >= 0, i_ < T.n(o)), z3.And(own(c.old, T.child(o, i_)) == 1, s.at(c, T.child(o, i_)) == i_)), T.child(o, i_)))
        return [('a tree that is allocated, its members too, each occurring once', Or(own(c.old, o) == 1, made)), default_registry(c, 1)]
    def at(s, c, x): return RIX(x)
    def ensures(s, c):
        T, o = H(c.old), c.o(0); a = s.arr(c); one = own(c.old, o) == 1; j = s.at(c, o_)
        member = z3.And(z3.Not(one), j >= 0, j < T.n(o), T.child(o, j) == o_)
        return [('the members are released', forall([o_], own(c.new, o_) == z3.If(z3.Or(z3.And(one, o_ == o), member), 0, own(c.old, o_)), own(c.new, o_))),
                ('the group and its array are released', forall([o_], live(c.new, o_) == z3.If(z3.And(z3.Not(one), z3.Or(o_ == o, z3.And(o_ == a, a != 0))), 0, live(c.old, o_)), live(c.new, o_)))]
class Join(Contract):
    fn = 'IFF_join'; modifies = ALLHP + ('nxt', 'own', 'live', 'nr', 'nw', 'wchunk', 'wname', 'wok', 'wPO', 'wM32')
    def n(s, c): return c.u(1)
    def requires(s, c): return [('an array of names', Or(c.o(0) > HEAP0, c.u(1) == 0))]
    def sums(s, c, k): 
        r = k
        return [JS(0) == 0, CT(0) == JJJJ, JS(k + 1) == JS(k) + pad(SZT(r)), CT(k + 1) == contents_value(k, CT(k), z3.BoolVal(True), GTT(r)), JS(k) >= 0, JS(k + 1) < 2**31 - 5, JS(k) < 2**31 - 5]
    def facts(s, c): return s.sums(c, I(0))
    def loop_facts(s, c, L): return s.sums(c, L.it)
    def named(s, c, upto): return forall([i_], z3.Implies(z3.And(i_ >= 0, i_ < Z(upto)), RN(i_) == H(c.old).sel('PO', c.o(0), 8 * i_)), RN(i_))
    def good(s, c, upto): return forall([i_], z3.Implies(z3.And(i_ >= 0, i_ < Z(upto)), GOOD(i_)), RT(i_))
    def state(s, c, T, cat, k):
        """cat is the concatenation of the first k inputs"""
        return [('a concatenation', T.id(cat) == CAT), ('so many members', T.n(cat) == k), ('its size is that of its members', T.size(cat) == 4 + JS(k)), ('its contents type summarises the inputs', T.gt(cat) == CT(k)),
                ('members are the inputs in order', forall([i_], z3.Implies(z3.And(i_ >= 0, i_ < Z(k)), T.child(cat, i_) == RT(i_)), T.child(cat, i_)))]
    def hints(s, c, L):
        st, g0 = L.st, c.old.g; T = H(st); it = L.it
        out = [('inputs within', it <= s.n(c)), ('so many reads', st.g['nr'] == it), ('the names so far', s.named(c, it)), ('all inputs so far are good', s.good(c, it)), ('objects only grow', st.g['nxt'] >= g0['nxt'])]
        out += [(f'existing objects unchanged ({hp})', frame(c, st, hp)) for hp in sorted(L.mod_heap)]
        out.append(('nothing beyond is owned', forall([o_], z3.Implies(o_ >= st.g['nxt'], And(own(st, o_) == 0, live(st, o_) == 0)), own(st, o_))))
        out.append(('the inputs are owned', forall([o_], own(st, o_) == z3.If(z3.And(RIX(o_) >= 0, RIX(o_) < it, RT(RIX(o_)) == o_, o_ >= g0['nxt']), 1, own(c.old, o_)), own(st, o_))))
        out.append(('inputs are different objects', forall([i_], z3.Implies(z3.And(i_ >= 0, i_ < it), z3.And(RIX(RT(i_)) == i_, RT(i_) >= g0['nxt'], RT(i_) < st.g['nxt'])), RT(i_))))
        for nm, v in [(n, x) for n, x in list(L.pre_env.items()) + list(L.phi.items()) if isinstance(x, PV)]:
            if isc(v.obj) or c.eng.is_cell(v) or nm in [p for p, _ in c.eng.prog.fn(s.fn).params]: continue
            cat = Z(v.obj); a = T.sel('PO', cat, CH)
            out += [(f'{nm}: {w}', q) for w, q in s.state(c, T, cat, it)]
            out += [(f'{nm}: the member array', And(Or(And(a == 0, it == 0), And(a > HEAP0, a >= g0['nxt'])), a != cat, a >= 0, a < st.g['nxt'], RIX_free(s, c, st, a, it))),
                    (f'{nm}: group and array are allocated', forall([o_], live(st, o_) == z3.If(z3.Or(o_ == cat, z3.And(o_ == a, a != 0)), 1, live(c.old, o_)), live(st, o_))),
                    (f'{nm}: the group is not an input', RIX_free(s, c, st, cat, it))]
        return out
    def ensures(s, c):
        g, g0 = c.new.g, c.old.g; n = s.n(c); nr = g['nr']; wrote = g['nw'] == g0['nw'] + 1; none = g['nw'] == g0['nw']; W = Heap(dict(PO=g['wPO'], M32=g['wM32'])); ok = c.ret.u() == 0; E = []
        E.append(('inputs are read in the given order', And(nr >= 0, nr <= n, s.named(c, nr))))
        E.append(('the output is written at most once, and only if all inputs could be read and conform', Or(none, And(wrote, eq(nr, n), s.good(c, nr)))))
        E.append(('what is written goes to the named file', Imp(wrote, eq(g['wname'], c.o(2)))))
        E += [(f'what is written: {w}', Imp(wrote, q)) for w, q in s.state(c, W, g['wchunk'], n)]
        E.append(('status 0 only if the output was written', Imp(ok, And(wrote, g['wok']))))
        E.append(('another status only for a bad input, an unwritable output or no memory', Or(ok, And(wrote, Not(g['wok'])), And(nr > 0, Not(GOOD(g['nr'] - 1))), eq(nr, 0))))
        E.append(('every input is released', forall([o_], own(c.new, o_) == own(c.old, o_), own(c.new, o_)))); E.append(('the concatenation is released', forall([o_], live(c.new, o_) == live(c.old, o_), live(c.new, o_))))
        return E
def RIX_free(s, c, st, o, it): return z3.Not(z3.And(RIX(o) >= 0, RIX(o) < it, RT(RIX(o)) == o))
def join_layer():
    L = ToolLayer(); L.name = 'join'; L.lemmas = contents_lemmas
    for k in (JoinReadFile, IffCheck, Empty, Append, Write, FreeAny, Join): L.add(k)
    return L
