"""C10: comparison is structural equality."""
from tree import *

EQ = z3.Function('EQ', z3.IntSort(), z3.IntSort(), z3.BoolSort())       # two chunks are structurally equal
GEQ = z3.Function('GEQ', z3.IntSort(), z3.IntSort(), z3.BoolSort())     # same group type and pairwise equal members
PEQ = z3.Function('PEQ', z3.IntSort(), z3.IntSort(), z3.BoolSort())     # pairwise equal shared properties
REQ = z3.Function('REQ', z3.IntSort(), z3.IntSort(), z3.BoolSort())     # same data bytes
i_ = z3.Int('i!')

class CmpLayer(PureLayer):
    name = 'cmp'
    def eqdefs(self, a, b):
        T = self.T; a, b = Z(a), Z(b)
        allc = lambda n, f: z3.ForAll([i_], z3.Implies(z3.And(i_ >= 0, i_ < n), EQ(f(a, i_), f(b, i_))), patterns=[EQ(f(a, i_), f(b, i_))])
        return [EQ(a, b) == z3.And(T.id(a) == T.id(b), T.size(a) == T.size(b), z3.If(isin(T.id(a), GROUPS), z3.And(GEQ(a, b), z3.Implies(T.id(a) == LIST, PEQ(a, b))), REQ(a, b))),
                GEQ(a, b) == z3.And(T.gt(a) == T.gt(b), T.n(a) == T.n(b), self.prefix(a, b, T.n(a), T.child)),
                PEQ(a, b) == z3.And(T.np(a) == T.np(b), self.prefix(a, b, T.np(a), T.prop)),
                REQ(a, b) == self.bytes(a, b, T.size(a))]
    def prefix(self, a, b, n, f, lo=0):
        return z3.ForAll([i_], z3.Implies(z3.And(i_ >= lo, i_ < Z(n)), EQ(f(a, i_), f(b, i_))), patterns=[EQ(f(a, i_), f(b, i_))])
    def bytes(self, a, b, n, lo=0):
        T = self.T
        return z3.ForAll([i_], z3.Implies(z3.And(i_ >= lo, i_ < Z(n)), T.byte(a, i_) == T.byte(b, i_)), patterns=[T.byte(a, i_), T.byte(b, i_)])

class Cmp(PureContract):
    trees = (0, 1)
    spec = None
    def defs(s, c): return s.layer.eqdefs(c.o(0), c.o(1))
    def ensures(s, c):
        return [(s.what, Iff(c.rb, s.spec(c.o(0), c.o(1)))), ('result is TRUE or FALSE', And(le(0, c.ret.s()), le(c.ret.s(), 1)))] + s.unchanged(c)
    def hints(s, c, L):
        a, b, Y = c.o(0), c.o(1), s.layer
        return [('members so far are equal', Y.prefix(a, b, L.it, Y.T.child)), ('properties so far are equal', Y.prefix(a, b, L.it, Y.T.prop)), ('bytes so far are equal', Y.bytes(a, b, L.it)),
                ('members within', L.it <= Y.T.n(a)), ('properties within', L.it <= Y.T.np(a))] + ([] if not L.down else [
                ('the last members are equal', Y.prefix(a, b, Y.T.n(a), Y.T.child, Y.T.n(a) - L.it)), ('the last properties are equal', Y.prefix(a, b, Y.T.np(a), Y.T.prop, Y.T.np(a) - L.it)), ('the last bytes are equal', Y.bytes(a, b, Y.T.size(a), Y.T.size(a) - L.it))])
def cmp(name, spec, what, reg, kind_=None, pre=None):
    class K(Cmp):
        fn = name; kind = kind_
        def extra(s, c): return pre(s.layer.T, c) if pre else []
    K.spec = staticmethod(spec); K.what = what; K.reg = reg; K.__name__ = name
    return K

def cmp_layer():
    L = CmpLayer()
    header = lambda T, c: [('same ID and size', And(T.id(c.o(0)) == T.id(c.o(1)), T.size(c.o(0)) == T.size(c.o(1))))]
    typ = 'true exactly if type and members are equal'
    L.add(cmp('IFF_compareRawChunk', lambda a, b: REQ(a, b), 'true exactly if the data bytes are equal', 2, pre=header))
    L.add(cmp('IFF_compareGroup', lambda a, b: GEQ(a, b), typ, 2, GROUPS, pre=header))
    for n, k in (('Form', (FORM, PROP)), ('CAT', (CAT, LIST)), ('Prop', (PROP,))): L.add(cmp('IFF_compare' + n, lambda a, b: GEQ(a, b), typ, 2, k, pre=header))
    L.add(cmp('IFF_compareList', lambda a, b: z3.And(GEQ(a, b), PEQ(a, b)), 'true exactly if type, members and shared properties are equal', 2, (LIST,), pre=header))
    L.add(cmp('IFF_compareChunk', lambda a, b: EQ(a, b), 'true exactly if the trees are structurally equal', 3))
    L.add(nullable_registry(cmp('IFF_compare', lambda a, b: EQ(a, b), 'true exactly if the trees are structurally equal', 2)))
    return L
