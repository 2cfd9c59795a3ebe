"""C08: the conformance check accepts exactly the conforming trees."""
from sizes import *
from ids import CheckId, CheckFormType, VID, VFT

CONF = z3.Function('CONF', z3.IntSort(), z3.BoolSort())
i_ = z3.Int('i!')
def member_ok(T, o, m):
    """the rule for a member m of group o, m itself conforming"""
    return z3.And(CONF(m), z3.If(T.id(o) == FORM, T.id(m) != PROP, z3.If(T.id(o) == PROP, z3.Not(isin(T.id(m), GROUPS)),
                  z3.And(isin(T.id(m), (FORM, CAT, LIST)), z3.Or(T.gt(o) == JJJJ, T.gt(m) == T.gt(o))))))
def members_ok(T, o, n, lo=0):
    m = T.child(o, i_); return z3.ForAll([i_], z3.Implies(z3.And(i_ >= lo, i_ < Z(n)), member_ok(T, o, m)), patterns=[m])
def props_ok(T, o, n, lo=0):
    m = T.prop(o, i_); return z3.ForAll([i_], z3.Implies(z3.And(i_ >= lo, i_ < Z(n)), CONF(m)), patterns=[m])
def type_ok(T, o): return z3.If(isin(T.id(o), (FORM, PROP)), VFT(T.gt(o)), VID(T.gt(o)))
def group_ok(T, o):
    return z3.And(type_ok(T, o), members_ok(T, o, T.n(o)), z3.Implies(T.id(o) == LIST, props_ok(T, o, T.np(o))), T.size(o) == body_size(T, o))
def conf_def(T, o): return CONF(o) == z3.And(VID(T.id(o)), z3.Implies(isin(T.id(o), GROUPS), group_ok(T, o)))

class Check(PureContract):
    trees = (0,)
    def extra(s, c): return [('sizes add up to less than 2 GiB', WS(c.o(0)))]
    def defs(s, c):
        T = s.layer.T; return ws_unfold(T, c.o(0)) + [conf_def(T, c.o(0))]
    def loop_facts(s, c, L):
        T, o = s.layer.T, c.o(0); return sum_step(T, o, L.it) + (sum_step(T, o, T.n(o) - 1 - L.it) + sum_step(T, o, T.np(o) - 1 - L.it) if L.down else [])
    def folds(s, c, L):
        T, o = s.layer.T, c.o(0)
        return [('SUMC', lambda k: SUMC(o, Z(k))), ('SUMP', lambda k: SUMP(o, Z(k)))] + ([] if not L.down else [('the last SUMC', lambda k: SUMC(o, T.n(o)) - SUMC(o, T.n(o) - Z(k))), ('the last SUMP', lambda k: SUMP(o, T.np(o)) - SUMP(o, T.np(o) - Z(k)))])
    def hints(s, c, L):
        T, o = s.layer.T, c.o(0)
        return [('members so far conform', members_ok(T, o, L.it)), ('properties so far conform', props_ok(T, o, L.it)),
                ('members within', L.it <= T.n(o)), ('properties within', L.it <= T.np(o))] + ([] if not L.down else [
                ('the last members conform', members_ok(T, o, T.n(o), T.n(o) - L.it)), ('the last properties conform', props_ok(T, o, T.np(o), T.np(o) - L.it))])
    def ensures(s, c):
        T = s.layer.T
        return [(s.what, Iff(c.rb, s.spec(T, c.o(0)))), ('result is TRUE or FALSE', And(le(0, c.ret.s()), le(c.ret.s(), 1)))] + s.unchanged(c)
def chk(name, spec, what, reg, kind_=None):
    class K(Check):
        fn = name; kind = kind_
    K.spec = staticmethod(spec); K.what = what; K.reg = reg; K.__name__ = name
    return K

def check_layer():
    L = PureLayer(); L.name = 'check'
    L.add(CheckId); L.add(CheckFormType)
    L.add(chk('IFF_checkRawChunk', lambda T, o: z3.BoolVal(True), 'a data chunk conforms', 1))
    for n, k in (('Form', FORM), ('Prop', PROP), ('CAT', CAT), ('List', LIST)):
        L.add(chk('IFF_check' + n, group_ok, 'true exactly if type, members and size conform', 1, (k,)))
    L.add(chk('IFF_checkChunk', lambda T, o: CONF(o), 'true exactly if the chunk conforms', 2))
    L.add(nullable_registry(chk('IFF_check', lambda T, o: z3.And(isin(T.id(o), (FORM, CAT, LIST)), CONF(o)), 'true exactly if it is a conforming form, concatenation or list', 1)))
    L.lemmas = sum_lemmas
    return L
