"""C01: big-endian codec of primitive values; C02: field access."""
from stdio import *

class CodecLayer(Layer):
    name = 'codec'
    def __init__(self):
        super().__init__()
        self.libc = dict(BASE)
    def init_state(self, eng):
        st = super().init_state(eng); files(st); return st

def reader(fname, n, signed):
    class R(Contract):
        fn = fname; out = {1: f'i{8*n}'}; modifies = [('out', 1), 'FP', 'fault']
        def requires(s, c): return [('file position is not negative', fp(c.old, c.o(0)) >= 0)]
        def ensures(s, c):
            f, p = c.o(0), fp(c.old, c.o(0)); L = LEN(f)
            v = c.new.loc(c.a[1], s.out[1])
            q = c.new.g['fault']; q0 = c.old.g['fault']; ok = c.rb
            if isinstance(v, UV): val = Not(ok)
            else: val = Imp(ok, eq(v.u(), be(c.new, f, p, n)))
            return [('success only if all bytes are in the file', Imp(ok, p + n <= L)),
                    ('result is TRUE or FALSE', And(le(0, c.ret.s()), le(c.ret.s(), 1))),
                    ('value is the big-endian value of the bytes', val),
                    ('position advances by the size', Imp(ok, c.new.g['FP'] == z3.Store(c.old.g['FP'], f, p + n))),
                    ('failure only at the end of the file or on an I/O error', Imp(Not(ok), Or(p + n > L, q))),
                    ('an I/O error is reported', Imp(ok, Iff(q, q0))),
                    ('the fault flag is sticky', Imp(q0, q)),
                    ('only this file moves', c.new.g['FP'] == z3.Store(c.old.g['FP'], f, fp(c.new, f)))]
    R.__name__ = fname; return R

def writer(fname, n, signed):
    class Wr(Contract):
        fn = fname; modifies = ['FP', 'fault']
        def requires(s, c): return [('file position is not negative', fp(c.old, c.o(0)) >= 0)]
        def ensures(s, c):
            f, p = c.o(0), fp(c.old, c.o(0)); q = c.new.g['fault']; q0 = c.old.g['fault']; ok = c.rb
            v = c.i(1)
            bs = [Wc(f, p + i) == Z(v.byte(n-1-i)) for i in range(n)]
            return [('result is TRUE or FALSE', And(le(0, c.ret.s()), le(c.ret.s(), 1))),
                    ('bytes written are the big-endian value', Imp(ok, z3.And(*bs))),
                    ('position advances by the size', Imp(ok, c.new.g['FP'] == z3.Store(c.old.g['FP'], f, p + n))),
                    ('success only without I/O error', Imp(ok, Iff(q, q0))),
                    ('failure only on an I/O error', Imp(Not(ok), q)),
                    ('the fault flag is sticky', Imp(q0, q)),
                    ('only this file moves', c.new.g['FP'] == z3.Store(c.old.g['FP'], f, fp(c.new, f)))]
    Wr.__name__ = fname; return Wr

PRIMS = [('UByte', 1, False), ('UWord', 2, False), ('Word', 2, True), ('ULong', 4, False), ('Long', 4, True), ('Id', 4, False)]

def codec_layer():
    L = CodecLayer()
    for nm, n, sg in PRIMS:
        L.add(reader('IFF_read' + nm, n, sg)); L.add(writer('IFF_write' + nm, n, sg))
    L.lemmas = lambda: roundtrip_lemmas(L)
    return L


# ---------------------------------------------------------------- C02: fields
PO_chunkId, PO_chunkSize = 8, 12
MORE, FAILURE, LAST = 0, 1, 2

def field(fname, n, read):
    class F(Contract):
        fn = fname
        out = {1: f'i{8*n}', 4: 'i32'} if read else {4: 'i32'}
        modifies = ([('out', 1)] if read else []) + [('out', 4), 'FP', 'fault']
        def requires(s, c):
            bp = c.old.loc(c.a[4])
            return [('file position is not negative', fp(c.old, c.o(0)) >= 0), ('chunk given', c.o(2) != 0),
                    ('processed count is not negative', le(0, bp.s()))]
        def ensures(s, c):
            f, p = c.o(0), fp(c.old, c.o(0)); q, q0 = c.new.g['fault'], c.old.g['fault']
            bp0, bp1 = c.old.loc(c.a[4]).s(), c.new.loc(c.a[4]).s()
            size = c.old.s32(c.o(2), PO_chunkSize)
            fits = le(add(bp0, n), size); r = c.ret.u()
            more, fail, last = eq(r, MORE), eq(r, FAILURE), eq(r, LAST)
            moved = c.new.g['FP'] == z3.Store(c.old.g['FP'], f, p + n)
            E = [('status is MORE, FAILURE or LAST', Or(more, fail, last)),
                 ('LAST exactly if the field does not fit', Iff(last, Not(fits))),
                 ('LAST leaves the file alone', Imp(last, And(c.new.g['FP'] == c.old.g['FP'], Iff(q, q0)))),
                 ('LAST leaves the count alone', Imp(last, eq(bp0, bp1))),
                 ('MORE counts the field', Imp(more, eq(bp1, add(bp0, n)))),
                 ('MORE moves the file over the field', Imp(more, moved)),
                 ('MORE only without I/O error', Imp(more, Iff(q, q0))),
                 ('FAILURE leaves the count alone', Imp(fail, eq(bp0, bp1))),
                 ('the fault flag is sticky', Imp(q0, q)),
                 ('only this file moves', c.new.g['FP'] == z3.Store(c.old.g['FP'], f, fp(c.new, f)))]
            if read:
                v, v0 = c.new.loc(c.a[1], s.out[1]), c.old.loc(c.a[1], s.out[1])
                isv = isinstance(v, IV)
                E += [('MORE only if all bytes are in the file', Imp(more, p + n <= LEN(f))),
                      ('MORE delivers the big-endian value', Imp(more, eq(v.u(), be(c.new, f, p, n)) if isv else False)),
                      ('LAST leaves the value alone', Imp(last, eq(v.u(), v0.u()) if isv else False)),
                      ('FAILURE only at the end of the file or on an I/O error', Imp(fail, Or(p + n > LEN(f), q)))]
            else:
                bs = [Wc(f, p + i) == Z(c.i(1).byte(n-1-i)) for i in range(n)]
                E += [('MORE writes the big-endian bytes', Imp(more, z3.And(*bs))),
                      ('FAILURE only on an I/O error', Imp(fail, q))]
            return E
    F.__name__ = fname; return F

class DeriveSuccess(Contract):
    fn = 'IFF_deriveSuccess'
    def ensures(s, c):
        return [('TRUE exactly if the status is not FAILURE', Iff(c.rb, Not(eq(c.u(0), FAILURE)))),
                ('result is TRUE or FALSE', And(le(0, c.ret.s()), le(c.ret.s(), 1)))]

def add_fields(L):
    for nm, n, sg in PRIMS:
        L.add(field(f'IFF_read{nm}Field', n, True)); L.add(field(f'IFF_write{nm}Field', n, False))
    L.add(DeriveSuccess)
def field_layer():
    L = codec_layer(); L.name = 'field'; add_fields(L)
    return L

def roundtrip_lemmas(L):
    out = []
    for n in (1, 2, 4):
        v = z3.Int('v')
        bs = [(v / 256 ** (n-1-i)) % 256 for i in range(n)]
        out.append((f'{8*n} bit: the value of its own big-endian bytes', z3.Implies(z3.And(v >= 0, v < 256**n), v == sum(b * 256 ** (n-1-i) for i, b in enumerate(bs)))))
        b = [z3.Int(f'b{i}') for i in range(n)]; w = sum(b[i] * 256 ** (n-1-i) for i in range(n))
        out.append((f'{8*n} bit: bytes are determined by the value', z3.Implies(z3.And(*[z3.And(x >= 0, x < 256) for x in b]), z3.And(*[(w / 256 ** (n-1-i)) % 256 == b[i] for i in range(n)]))))
    return out
