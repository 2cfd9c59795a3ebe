"""C17, C22: failures of the C library's I/O functions are reported; files opened here are closed here, once.

Independent of what is read or written: contents of memory, files and the registry are arbitrary.  Ghosts:
  fault  an open, read, write or close operation has failed (a read that meets the end of the file too)
  OP[f]  0: a stream that was not opened here, 1: opened here and still open, 2: closed
  flushed  the stream whose output was handed to the system last (by fflush or fclose), if nothing has been written since; else 0
  opens  number of calls of fopen; last  the stream read from or written to as a whole
Application handlers: assumed to satisfy the contract that is proved for the built-in ones."""
from stdio import *
from tree import registry_tables

ALLHP = ('PO', 'M8', 'M16', 'M32', 'M64')
o_ = z3.Int('o!')
NAME = z3.Function('NAME', z3.IntSort(), z3.IntSort())      # the name a stream was opened with
WRITING = z3.Function('WRITING', z3.IntSort(), z3.BoolSort())
def stdstream(c, name): return c.eng.prog.resolve(name, c.eng.prog.fn('IFF_read').module)
def op(st, f): return z3.Select(st.g['OP'], Z(f))
def usable(eng, st, f):
    if eng.layer.files: eng.prove(st, op(st, f) != 2, 'a closed stream is not used')
def failed(st): n = st.copy(); n.g['fault'] = z3.BoolVal(True); return n
def io_fgetc(eng, st, a, ins):
    usable(eng, st, a[0].obj); e = fresh('byte'); s2 = failed(st); st.assume(e >= 0, e < 256); return [(st, IV(32, e, 0, 255)), (s2, IV(32, -1))]
def io_fputc(eng, st, a, ins):
    usable(eng, st, a[1].obj); st.g['flushed'] = I(0); s2 = failed(st); return [(st, IV(32, Z(slice_expr(cut(a[0].slices(), 0, 8))), 0, 255)), (s2, IV(32, -1))]
def io_block(read):
    def h(eng, st, a, ins):
        ptr, f = a[0], a[3].obj; usable(eng, st, f); cnt, es = a[2].u(), a[1].u(); tot = mul(cnt, es)
        if not read: st.g['flushed'] = I(0)
        if read:
            if eng.is_cell(ptr):
                if not isc(tot) or tot > 64: clobber(eng, st, ptr, None); known = 0
                else: known = tot
                for i in range(known): eng.store(st, PV(ptr.obj, ptr.off + i), ir.INT(8), freshint(8, 'b'), check=False)
                if known in (2, 4, 8): x = freshint(8 * tot, 'v'); st.assume(rangefact(x)); eng.store(st, ptr, ir.INT(8 * tot), x, check=False)
            else:
                for hp in ('M8',): st.h[hp] = z3.Store(st.h[hp], Z(ptr.obj), fresh('row', ROW))
        s2 = failed(st); k = fresh('short'); s2.assume(k >= 0, k < Z(cnt)); out = [(st, IV(64, cnt, *a[2].urange()))]
        if not (isc(tot) and tot == 0): s2.assume(Z(tot) > 0); out.append((s2, IV(64, k, 0, 2**64 - 1)))
        return out
    return h
def io_fopen(eng, st, a, ins):
    mode = cstring(eng, a[1])
    if eng.layer.files: eng.prove(st, mode in (b'rb', b'wb'), 'files are opened in binary read or write mode')
    s2 = failed(st); h = st.g['nxt']; st.g['nxt'] = h + 1
    st.assume(NAME(h) == Z(a[0].obj), WRITING(h) == (mode == b'wb')); st.g['OP'] = z3.Store(st.g['OP'], h, I(1))
    for s in (st, s2): s.g['opens'] = s.g['opens'] + 1
    eng.prove(st, eq(a[0].offset(), 0), 'the name is passed on from its start')
    return [(st, PV(h)), (s2, PV(0))]
def io_fclose(eng, st, a, ins):
    f = Z(a[0].obj)
    if eng.layer.files: eng.prove(st, op(st, f) == 1, 'only an open stream that was opened here is closed')
    st.g['OP'] = z3.Store(st.g['OP'], f, I(2)); s2 = st.copy()
    s2.g['fault'] = z3.Or(s2.g['fault'], WRITING(f)); st.g['flushed'] = f        # closing completes what was written
    return [(st, IV(32, 0)), (s2, IV(32, -1))]
def io_fflush(eng, st, a, ins):
    usable(eng, st, a[0].obj); s2 = failed(st); st.g['flushed'] = Z(a[0].obj); return [(st, IV(32, 0)), (s2, IV(32, -1))]
def io_ferror(eng, st, a, ins):
    usable(eng, st, a[0].obj); x = freshint(32, 'err', True); st.assume(rangefact(x)); return [(st, x)]

def io_bsearch(eng, st, a, ins):
    """no I/O and no writes to memory in the comparison function; what is found does not matter here"""
    s = st.copy()
    for o, r in eng.call_id(a[4].obj, [a[0], PV(fresh('entry'))], s):
        if any(not eng.same(o.g.get(k), st.g[k]) for k in st.g) or any(not o.h[k].eq(st.h[k]) for k in st.h): raise Unsupported('a comparison function with side effects')
    x = PV(fresh('found')); st.assume(x.obj >= 0); return [(st, x)]
KEEP = ALLHP + ('nxt',)
class IoLayer(Layer):
    name = 'io'
    def __init__(self, faults, files):
        super().__init__(); self.faults, self.files = faults, files; self.libc = dict(BASE)
        self.libc.update(fgetc=io_fgetc, getc=io_fgetc, fputc=io_fputc, putc=io_fputc, fread=io_block(True), fwrite=io_block(False), fopen=io_fopen, fclose=io_fclose, fflush=io_fflush, ferror=io_ferror, feof=io_ferror, bsearch=io_bsearch)
    def init_state(self, eng):
        st = super().init_state(eng); st.g['OP'] = fresh('OP', ROW); st.g['fault'] = fresh('fault', 'Bool'); st.g['opens'] = I(0); st.g['last'] = I(-1); st.g['flushed'] = I(0); st.g['whole'] = fresh('whole', 'Bool')
        st.assume(z3.ForAll([o_], z3.Implies(o_ >= st.g['nxt'], op(st, o_) == 0), patterns=[op(st, o_)])); return st
    def indirect(self, eng, st, fp, args, ins, ctx):
        slot = fp.prov[2] % 64 if fp.prov and isc(fp.prov[2]) else None
        if slot not in (8, 16, 24, 40): raise Unsupported('indirect call through something other than a chunk type')
        if slot in (16, 24): st.assume(st.s32(args[1].obj, 12) >= 0)      # sizes are not negative: checked when reading, assumed of a tree that is written
        if slot in (16, 24): usable(eng, st, args[0].obj)
        if slot == 24: st.g['flushed'] = fresh('flushed')
        q0 = st.g['fault']
        for k in KEEP if slot != 24 else (): st.h[k] = fresh(k, HEAP) if k in st.h else None
        st.h = {k: v for k, v in st.h.items() if v is not None}
        n0 = st.g['nxt']; st.g['nxt'] = fresh('nxt'); st.assume(st.g['nxt'] >= n0)
        for a in args:
            if isinstance(a, PV) and eng.is_cell(a):
                x = freshint(32, 'out'); st.assume(x.s() >= 0, rangefact(x)); eng.store(st, a, ir.INT(32), x, check=False)     # a handler counts bytes (for the built-in ones: C03, C04)
        if slot == 40: return [(st, UNDEF)]
        if slot == 8: x = PV(fresh('created')); st.assume(x.obj >= 0); return [(st, x)]
        r = freshint(32, 'r', True); q = fresh('fault', 'Bool'); st.g['fault'] = q; st.assume(rangefact(r), z3.Implies(q0, q), z3.Implies(Z(r.nz()), q == q0))
        return [(st, r)]

class Any(Contract):
    """an operation on stream argument `f`"""
    f = 0; modifies = KEEP + ('fault',); out = {}
    def requires(s, c): return [('the stream is not closed', op(c.old, c.o(s.f)) != 2)] if s.f is not None else []
    def ok(s, c): return c.rb if isinstance(c.ret, IV) else c.ro != 0
    def ensures(s, c):
        q, q0 = c.new.g['fault'], c.old.g['fault']
        return s.pick([('a failed operation is reported', Imp(s.ok(c), Iff(q, q0))), ('a failure is not forgotten', Imp(q0, q))], []) + s.same_std(c, c.new)
    def same_std(s, c, st):
        return [('writing does not replace the standard output', st.p(stdstream(c, 'stdout'), 0) == c.old.p(stdstream(c, 'stdout'), 0))] if s.fn.startswith('IFF_write') else []
    def pick(s, faults, files): return (faults if s.layer.faults else []) + (files if s.layer.files else [])
    def hints(s, c, L):
        st = L.st; return [('no operation has failed so far', Iff(st.g['fault'], c.old.g['fault'])), ('a failure is not forgotten', Imp(c.old.g['fault'], st.g['fault']))] + s.same_std(c, st)
    def havoc(s, c, st):
        n0 = st.g['nxt']; super().havoc(c, st); st.assume(st.g['nxt'] >= n0)
def forall1(c, q): return z3.ForAll([o_], q)
class Field(Any):
    def ok(s, c): return Not(eq(c.ret.u(), 1))
class Sized(Any):
    size = (); modifies = ('nxt', 'M8', 'fault')
    def hints(s, c, L): return super().hints(c, L) + ([('within', L.it <= z3.If(c.s(2) > c.s(3), c.s(2) - c.s(3), 0))] if len(s.size) > 1 else [])
    def requires(s, c): return super().requires(c) + [('sizes are not negative', And([c.s(k) >= 0 for k in s.size]))]
class RawBody(Any):
    def requires(s, c): return super().requires(c) + [('sizes are not negative', c.old.s32(c.o(1), 12) >= 0)]
class Silent(Any):
    """does no I/O"""
    f = None; modifies = KEEP
    def requires(s, c): return []
    def ensures(s, c): return []
class Whole(Any):
    """a stream is read or written as a whole: `last` records which one"""
    modifies = KEEP + ('fault', 'last', 'whole'); probe = False
    def ensures(s, c):
        q, q0, w = c.new.g['fault'], c.old.g['fault'], c.new.g['whole']
        return s.pick([('a failed operation is reported', Imp(s.ok(c), Iff(w if s.probe else q, q0))), ('a failure is not forgotten', Imp(q0, q))], []) + [('the stream that was passed in is used', c.new.g['last'] == c.o(0))] + s.same_std(c, c.new)
class Chunk(Any):
    """IFF_readChunk, IFF_writeChunk: whether everything the chunk needed worked is in `whole`"""
    modifies = KEEP + ('fault',)
    def apply(s, eng, args, st):
        c = Ctx(eng, s, list(args), st.copy()); eng.used_contracts.add(s.fn)
        for nm, q in s.requires(c): eng.prove(st, q, f'call {s.fn}: requires {nm}'); st.assume(q)
        s.havoc(c, st); rt = eng.prog.fn(s.fn).ret
        if rt.k == 'ptr': c.ret = PV(fresh('r')); st.assume(c.ret.obj >= 0)
        else: c.ret = freshint(rt.n, 'r'); st.assume(rangefact(c.ret))
        c.new = st
        for nm, q in s.ensures(c): st.assume(q)
        if eng.ctx and isinstance(eng.ctx.con, Whole): st.g['whole'] = st.g['fault']; st.g['last'] = c.o(0)
        return [(st, c.ret)]
class ByName(Any):
    """by file name: opened, used, closed exactly once"""
    f = None; mode = False; modifies = KEEP + ('fault', 'OP', 'opens', 'last', 'whole'); maybe_std = None
    def requires(s, c): return [] if s.maybe_std else [('a name is given', c.o(0) != 0)]
    def std(s, c):
        return c.old.p(stdstream(c, s.maybe_std), 0)
    def ensures(s, c):
        q0 = c.old.g['fault']; l = c.new.g['last']; n0 = c.old.g['nxt']; named = c.o(0) != 0; one = c.new.g['opens'] == c.old.g['opens'] + 1; E = []
        opened = And(l >= n0, NAME(l) == c.o(0), Iff(WRITING(l), s.mode), one)
        E.append(('every stream opened here has been closed', forall1(c, z3.Implies(o_ >= n0, op(c.new, o_) != 1))))
        E.append(('no other stream is closed', forall1(c, z3.Implies(o_ < n0, op(c.new, o_) == op(c.old, o_)))))
        E.append(('one file is opened if a name is given', Imp(named, one)))
        E.append(('success only on the file of that name, in binary mode for this direction', Imp(And(named, s.ok(c)), opened)))
        if s.maybe_std:
            E.append(('without a name no file is opened or closed', Imp(Not(named), And(c.new.g['opens'] == c.old.g['opens'], forall1(c, op(c.new, o_) == op(c.old, o_))))))
            E.append(('without a name the standard stream is used', Imp(Not(named), l == s.std(c))))
        F = [('a failed operation is reported', Imp(s.ok(c), Iff(c.new.g['fault'] if s.mode else c.new.g['whole'], q0)))]
        if s.mode: F.append(('success only if the output has been flushed', Imp(s.ok(c), c.new.g['flushed'] == l)))
        return s.pick(F, E)
class Std(ByName):
    def requires(s, c): return super().requires(c) + [('the standard stream is open', op(c.old, s.std(c)) != 2), ('the standard stream exists', s.std(c) > 0)]

def fault_layer(): return io_layer(True, False)
def file_layer(): return io_layer(False, True)
def io_layer(faults, files):
    L = IoLayer(faults, files)
    def add(cls, name, **kw):
        if cls is not Silent: kw['modifies'] = kw.get('modifies', cls.modifies) + ('flushed',)
        L.add(type(name, (cls,), dict(fn=name, **kw)))
    for x in ('UByte', 'UWord', 'Word', 'ULong', 'Long', 'Id'):
        w = {'UByte': 8, 'UWord': 16, 'Word': 16}.get(x, 32)
        add(Any, 'IFF_read' + x, out={1: f'i{w}'}, modifies=('fault', ('out', 1))); add(Any, 'IFF_write' + x, modifies=('fault',))
        add(Field, f'IFF_read{x}Field', out={1: f'i{w}', 4: 'i32'}, modifies=KEEP + ('fault', ('out', 1), ('out', 4))); add(Field, f'IFF_write{x}Field', out={4: 'i32'}, modifies=('fault', ('out', 4)))
    for x, z in (('skipUnknownBytes', (2, 3)), ('readPaddingByte', (1,)), ('writeZeroFillerBytes', (2, 3)), ('writePaddingByte', (1,))): add(Sized, 'IFF_' + x, size=z)
    for k in ('RawChunk', 'Form', 'CAT', 'List', 'Prop'):
        for d in ('read', 'write'): add(RawBody if k == 'RawChunk' else Any, f'IFF_{d}{k}', out={3: 'i32'}, modifies=KEEP + ('fault', ('out', 3)))
        add(Silent, 'IFF_free' + k); add(Silent, 'IFF_create' + k if k == 'RawChunk' else 'IFF_createUnparsed' + k)
    add(Chunk, 'IFF_readChunk'); add(Chunk, 'IFF_writeChunk'); add(Silent, 'IFF_freeChunk'); add(Silent, 'IFF_findChunkType', modifies=()); add(Silent, 'getChunkType', modifies=(), only_if_recursive=True)
    add(Whole, 'IFF_readFd', probe=True); add(Whole, 'IFF_writeFd')
    add(ByName, 'IFF_readFile'); add(ByName, 'IFF_writeFile', mode=True); add(Std, 'IFF_read', maybe_std='stdin'); add(Std, 'IFF_write', mode=True, maybe_std='stdout')
    return L
