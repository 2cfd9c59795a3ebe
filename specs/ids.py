"""C09: which IDs and form types are accepted."""
from tree import *

def ch(v, k): return (v / 256 ** (3 - k)) % 256
def valid_id(v):
    return z3.And(*[z3.And(ch(v, k) >= 0x20, ch(v, k) <= 0x7e) for k in range(4)], ch(v, 0) != 0x20)
RESERVED = [mk(x) for x in ['LIST', 'FORM', 'PROP', 'CAT ', 'JJJJ'] + [f'{p}{d}' for p in ('LIS', 'FOR', 'CAT') for d in range(1, 10)]]
def valid_form_type(v):
    okc = lambda c: z3.Or(z3.And(c >= 0x41, c <= 0x5a), z3.And(c >= 0x30, c <= 0x39), c == 0x20)
    return z3.And(valid_id(v), *[okc(ch(v, k)) for k in range(4)], *[v != r for r in RESERVED])

VID = z3.Function('VID', z3.IntSort(), z3.BoolSort())      # VID(v) stands for valid_id(v), VFT(v) for valid_form_type(v)
VFT = z3.Function('VFT', z3.IntSort(), z3.BoolSort())
class CheckId(Contract):
    fn = 'IFF_checkId'
    def facts(s, c): return [VID(c.u(0)) == valid_id(c.u(0))]
    def ensures(s, c): return [('accepted exactly if it is a legal ID', Iff(c.rb, VID(c.u(0)))), ('result is TRUE or FALSE', And(le(0, c.ret.s()), le(c.ret.s(), 1)))]
class CheckFormType(Contract):
    fn = 'IFF_checkFormType'
    def facts(s, c): return [VFT(c.u(0)) == valid_form_type(c.u(0)), VID(c.u(0)) == valid_id(c.u(0))]
    def ensures(s, c): return [('accepted exactly if it is a legal form type', Iff(c.rb, VFT(c.u(0)))), ('result is TRUE or FALSE', And(le(0, c.ret.s()), le(c.ret.s(), 1)))]

class IdToString(Contract):
    fn = 'IFF_idToString'
    def default_arg(s, c, k, ty, st):
        if k == 1: return c.eng.new_cell(st)
    def apply(s, eng, args, st): return eng.run_fn(eng.prog.fn(s.fn), args, st)      # a caller sees the body, so that its buffer may be anything
    def ensures(s, c):
        out = []
        for k in range(4):
            b = c.eng.load(c.new, PV(c.a[1].obj, k), ir.INT(8), check=False)
            out.append((f'character {k} is byte {k} of the ID', eq(b.u(), Z(c.i(0).byte(3-k))) if isinstance(b, IV) else False))
        return out

def id_layer():
    L = PureLayer(); L.name = 'ids'
    L.add(IdToString); L.add(CheckId); L.add(CheckFormType)
    return L
