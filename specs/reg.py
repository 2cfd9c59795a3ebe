"""C15: the chunk type is the one the registry selects, and all operations dispatch to it."""
from lookup import HeapLayer, forall, frame
from tree import *
from ids import CheckId, CheckFormType

Int = z3.IntSort()
GCP = z3.Function('GCP', Int, Int, Int)     # table that holds the chunk type found along a chain of nodes, or 0
GCX = z3.Function('GCX', Int, Int, Int)     # offset of its entry
KI = z3.Function('KI', Int, Int, Int)       # index of the entry with a given ID in a table
FNODE = z3.Function('FNODE', Int, Int, Int) # first node of the chain for a form type, or 0
FINDP = z3.Function('FINDP', Int, Int, Int, Int)   # the selected chunk type: object
FINDX = z3.Function('FINDX', Int, Int, Int, Int)   # ... offset
j_, l_ = z3.Int('j!'), z3.Int('l!')

def node_def(T, n, cid):
    n = Z(n); tab, ln, up = T.sel('PO', n, 8), T.u32(n, 0), T.sel('PO', n, 16); k = KI(tab, cid); e = lambda i: T.u32(tab, 64 * i)
    sorted_ = z3.ForAll([j_, l_], z3.Implies(z3.And(0 <= j_, j_ < l_, l_ < ln), e(j_) < e(l_)), patterns=[z3.MultiPattern(e(j_), e(l_))])
    return [z3.Implies(n == 0, GCP(n, cid) == 0), ln >= 0, ln < 2**32,
            z3.Implies(n != 0, z3.And(tab > 0, sorted_, z3.Or(z3.And(0 <= k, k < ln, e(k) == cid, GCP(n, cid) == tab, GCX(n, cid) == 64 * k),
                       z3.And(z3.ForAll([j_], z3.Implies(z3.And(0 <= j_, j_ < ln), e(j_) != cid), patterns=[e(j_)]), GCP(n, cid) == GCP(up, cid), GCX(n, cid) == GCX(up, cid)))))]
def form_def(T, r, ft):
    tab, ln = T.sel('PO', r, 8), T.u32(r, 0); k = KI(tab, ft); e = lambda i: T.u32(tab, 16 * i)
    sorted_ = z3.ForAll([j_, l_], z3.Implies(z3.And(0 <= j_, j_ < l_, l_ < ln), e(j_) < e(l_)), patterns=[z3.MultiPattern(e(j_), e(l_))])
    return [ln >= 0, ln < 2**32, sorted_, z3.Implies(ln > 0, tab > 0), z3.Or(z3.And(0 <= k, k < ln, e(k) == ft, FNODE(r, ft) == T.sel('PO', tab, 16 * k + 8)),
                 z3.And(z3.ForAll([j_], z3.Implies(z3.And(0 <= j_, j_ < ln), e(j_) != ft), patterns=[e(j_)]), FNODE(r, ft) == 0))]
def find_def(T, r, ft, cid):
    f, g, d = FNODE(r, ft), T.sel('PO', r, 16), T.sel('PO', r, 24)
    pick = lambda a, b, c: z3.If(GCP(f, cid) != 0, a, z3.If(GCP(g, cid) != 0, b, c))
    return [FINDP(r, ft, cid) == pick(GCP(f, cid), GCP(g, cid), d), FINDX(r, ft, cid) == pick(GCX(f, cid), GCX(g, cid), I(0))]

class GetChunkType(Contract):
    """search along a chain of nodes; the function is internal, so this contract is used only while it is recursive"""
    fn = 'getChunkType'; only_if_recursive = True
    def facts(s, c): return node_def(s.layer.T, c.o(1), c.u(0)) + node_def(s.layer.T, I(0), c.u(0))
    def apply(s, eng, a, st):
        eng.used_contracts.add(s.fn)
        cid, n = Z(a[0].u()), Z(a[1].obj); s1 = feas(eng, st, GCP(n, cid) != 0); s2 = feas(eng, st, GCP(n, cid) == 0)
        return ([(s1, PV(GCP(n, cid), 0, GCX(n, cid)))] if s1 else []) + ([(s2, PV(0))] if s2 else [])
    def ensures(s, c):
        n, cid = c.o(1), c.u(0)
        return [('the first chunk type for the ID along the chain, or NULL', And(eq(c.ret.obj, GCP(n, cid)), Or(eq(c.ret.obj, 0), eq(c.ret.offset(), GCX(n, cid)))))]
class Find(Contract):
    fn = 'IFF_findChunkType'
    def cases(s): return ['NULL registry', 'registry given']
    def setup(s, c, st, case):
        if case == 'NULL registry': c.a[0] = PV(0)
        else: st.assume(c.o(0) > 0)
    def facts(s, c):
        T = s.layer.T; r, ft, cid = c.o(0), c.u(1), c.u(2)
        return find_def(T, r, ft, cid) + form_def(T, r, ft) + [q for n in (T.sel('PO', r, 16), FNODE(r, ft), I(0)) for q in node_def(T, n, cid)]
    def loop_facts(s, c, L): return [q for v in L.phi.values() if isinstance(v, PV) and not isc(v.obj) for q in node_def(s.layer.T, v.obj, c.u(2))]
    def hints(s, c, L):
        out = []; cid = c.u(2)
        for n, v in L.phi.items():
            w = L.phi_entry[n]
            if isinstance(v, PV) and isinstance(w, PV): out.append((f'{n}: the search continues with the same answer', And(GCP(Z(v.obj), cid) == GCP(Z(w.obj), cid), GCX(Z(v.obj), cid) == GCX(Z(w.obj), cid))))
        return out
    def ensures(s, c):
        r, ft, cid = c.o(0), c.u(1), c.u(2)
        if isc(c.a[0].obj) and c.a[0].obj == 0: return [('no registry, no chunk type', eq(c.ret.obj, 0))]
        return [('the chunk type selected by the registry', And(eq(c.ret.obj, FINDP(r, ft, cid)), Or(eq(c.ret.obj, 0), eq(c.ret.offset(), FINDX(r, ft, cid)))))]

class RegLayer(PureLayer):
    name = 'reg'
    def __init__(self):
        super().__init__(); self.contracts.clear(); self.add(GetChunkType); self.add(Find)
    def bsearch_witness(self, tab, key): return [KI(Z(tab), Z(key))]
def reg_layer(): return RegLayer()

# ---------------------------------------------------------------- dispatch
CTX = z3.Function('CTX', Int, Int)          # group type of the directly enclosing group, 0 at top level
SLOT = dict(create=8, read=16, write=24, check=32, free=40, print=48, compare=56)
def ctx_facts(T, o):
    """what the context of members is"""
    kid, pr = T.child(o, j_), T.prop(o, j_)
    return [z3.ForAll([j_], z3.Implies(z3.And(j_ >= 0, j_ < T.n(o)), CTX(kid) == T.gt(o)), patterns=[kid]), z3.ForAll([j_], z3.Implies(z3.And(j_ >= 0, j_ < T.np(o)), CTX(pr) == T.gt(o)), patterns=[pr])] + \
           [z3.And(T.u32(o, f) >= 0, T.u32(o, f) < 2**32) for f in (ID, SIZE, GT, LENO, PLEN)]
class FindOpaque(Find):
    """the chunk type of an arbitrary registry, as an uninterpreted function of it; proved in the registry layer"""
    elsewhere = True
    def apply(s, eng, a, st):
        r, ft, cid = Z(a[0].obj), Z(a[1].u()), Z(a[2].u())
        eng.prove(st, eq(a[0].obj, s.layer.REG.obj), 'the chunk type is looked up in the registry that was passed in')
        st.assume(FINDP(r, ft, cid) > 0, FINDX(r, ft, cid) >= 0)
        return [(st, PV(FINDP(r, ft, cid), 0, FINDX(r, ft, cid)))]

class DispatchLayer(PureLayer):
    """every operation, for an arbitrary registry and arbitrary handlers; nothing is known about what a handler returns"""
    name = 'dispatch'; proof_ghosts = ('calls',)
    def __init__(self):
        super().__init__(); self.contracts.clear(); self.add(FindOpaque); self.add(CheckId); self.add(CheckFormType); self.REG = PV(z3.Int('REG'))
        for f in ('vfprintf', 'vprintf', 'llvm.va_start', 'llvm.va_end', 'llvm.va_start.p0', 'llvm.va_end.p0', 'fputs'): self.libc[f] = noop_int
    def init_state(self, eng):
        st = super().init_state(eng); files(st); st.g['calls'] = I(0); st.assume(z3.Int('REG') > 0); self.REG = PV(z3.Int('REG')); return st
    def indirect(self, eng, st, fp, args, ins, ctx):
        con = ctx.con
        if not isinstance(con, Chunk): raise Unsupported('indirect call')
        cid, ft = con.key(eng, ctx, st); r = Z(self.REG.obj)
        op = 'create' if con.op == 'read' and len(args) == 2 else con.op
        obj, sym, off = fp.prov if fp.prov else (None, 0, 0)
        ok = False if obj is None else And(eq(obj, FINDP(r, ft, cid)), eq(add(sym, off), FINDX(r, ft, cid) + SLOT[op]))
        eng.prove(st, ok, f'the {op} handler of the chunk type selected for this chunk is called')
        for nm, q in con.handler_args(eng, ctx, st, op, args): eng.prove(st, q, f'the {op} handler is called with {nm}')
        st.g['calls'] = st.g['calls'] + 1
        con.after(eng, ctx, st, op, args)
        rt = ins.a[0]
        if rt.k == 'int': r = freshint(rt.n, 'r_' + op); st.assume(rangefact(r))
        elif rt.k == 'ptr': r = con.created(eng, ctx, st, args)
        else: r = UNDEF
        st.g[('r', op)] = r
        return [(st, r)]

class Chunk(Contract):
    """IFF_<op>Chunk: chunk first (or second) argument"""
    op = None; at = 0; ft = 1; reg = 2; two = False; modifies = ('FP', 'fault')
    def default_arg(s, c, k, ty, st): return s.layer.REG if k == s.reg else None
    def key(s, eng, c, st): return s.layer.T.id(c.o(s.at)), c.u(s.ft)
    def facts(s, c): return ctx_facts(s.layer.T, c.o(s.at)) + (ctx_facts(s.layer.T, c.o(1)) if s.two else [])
    def requires(s, c):
        return [('the context is the group type of the enclosing group', c.u(s.ft) == CTX(c.o(s.at))), ('the registry is the one passed in', eq(c.a[s.reg].obj, s.layer.REG.obj))]
    def handler_args(s, eng, c, st, op, args):
        ps = [a for a in args if isinstance(a, PV)]
        want = [c.a[s.at]] + ([c.a[1]] if s.two else []) + [s.layer.REG]
        if op in ('write', 'read'): want.insert(0, c.a[0])
        return [(f'the right pointers ({i})', peq(ps[i], w)) for i, w in enumerate(want)] if len(ps) >= len(want) else [('all its arguments', False)]
    def after(s, eng, c, st, op, args): st.g['FP'] = fresh('FP', ROW); st.g['fault'] = fresh('fault', 'Bool')
    def ensures(s, c):
        return [('one handler is called' if s.op in ('free', 'print') else 'at most one handler is called', And(c.new.g['calls'] == c.old.g['calls'] + 1) if s.op in ('free', 'print') else And(c.new.g['calls'] >= c.old.g['calls'], c.new.g['calls'] <= c.old.g['calls'] + 1))] + \
               ([('success only as the handler reports', Or(Not(c.rb), And(c.new.g['calls'] == c.old.g['calls'] + 1, c.new.g[('r', s.op)].nz() if ('r', s.op) in c.new.g else False)))] if s.op in ('write', 'check', 'compare') and getattr(c, 'proving', True) else [])
    def apply(s, eng, a, st):
        eng.used_contracts.add(s.fn)
        c = Ctx(eng, s, a, st.copy())
        for nm, q in s.requires(c): eng.prove(st, q, f'call {s.fn}: requires {nm}'); st.assume(q)
        s.after(eng, c, st, s.op, a)
        rt = eng.prog.fn(s.fn).ret
        if rt.k == 'int': r = freshint(rt.n, 'r'); st.assume(rangefact(r)); return [(st, r)]
        return [(st, UNDEF)]
class Handler(Contract):
    """the built-in handlers for group chunks: members are processed in the context of the group type"""
    at = 0; reg = 1; two = False; modifies = ('FP', 'fault'); nullok = False; top = False; out = {}
    def default_arg(s, c, k, ty, st): return s.layer.REG if k == s.reg else None
    def cases(s): return ['NULL registry', 'registry given'] if s.nullok else [None]
    def setup(s, c, st, case):
        if case == 'NULL registry': c.a[s.reg] = PV(0); s.layer.REG = PV(c.eng.prog.ids['IFF_defaultChunkRegistry'])
    def requires(s, c):
        T = s.layer.T; R = [('chunk given', c.o(s.at) != 0)]
        if s.top: R.append(('the chunk is at top level', CTX(c.o(s.at)) == 0))
        R.append(('the registry is the one passed in', eq(c.a[s.reg].obj, s.layer.REG.obj) if not (s.nullok and isc(c.a[s.reg].obj)) else True))
        if s.two: R.append(('both chunks have the same ID', T.id(c.o(0)) == T.id(c.o(1))))
        return R
    def facts(s, c):
        T = s.layer.T; os = [c.o(s.at)] + ([c.o(1)] if s.two else [])
        return [q for o in os for q in ctx_facts(T, o)] + [q for o in os if not s.top for q in [z3.Implies(T.n(o) > 0, T.sel('PO', o, CH) > HEAP0)] + ([z3.Implies(T.np(o) > 0, T.sel('PO', o, PR) > HEAP0)] if s.fn.endswith('List') else [])]
    def hints(s, c, L): return [('members within', L.it <= s.layer.T.n(c.o(s.at))), ('properties within', L.it <= s.layer.T.np(c.o(s.at)))]
    def havoc(s, c, st): st.g['FP'] = fresh('FP', ROW); st.g['fault'] = fresh('fault', 'Bool'); [st.setloc(c.a[k], s.layer.eng_fresh(t, f'out{k}'), t) for k, t in s.out.items()]
KINDS = ('Form', 'CAT', 'List', 'Prop')
def dispatch_layer():
    L = DispatchLayer()
    def chunk(op, **kw): L.add(type(op, (Chunk,), dict(fn=f'IFF_{op}Chunk', op=op, **kw)))
    chunk('check'); chunk('free'); chunk('print', ft=2, reg=3); chunk('write', at=1, ft=2, reg=3); chunk('compare', two=True, ft=2, reg=3)
    def h(name, **kw): L.add(type(name, (Handler,), dict(fn='IFF_' + name, **kw)))
    for k in KINDS:
        h('check' + k); h('free' + k); h('print' + k, reg=2); h('write' + k, at=1, reg=2, out={3: 'i32'}); h('compare' + k, two=True, reg=2)
    h('freeGroup'); h('printGroup', reg=3); h('writeGroup', at=1, reg=3, out={4: 'i32'}); h('compareGroup', two=True, reg=2)
    for n in ('check', 'free'): h(n, nullok=True, top=True)
    h('print', reg=2, nullok=True, top=True); h('compare', reg=2, two=True, nullok=True, top=True)
    h('writeFd', at=1, reg=2, nullok=True, top=True)
    return L
