"""Chunk trees as they lie in memory, and the layers in which no function changes them."""
from stdio import *

def plain(t):
    """usable as a trigger: no term that the simplifier rewrites (store, if, lambda)"""
    if z3.is_app(t) and t.decl().kind() in (z3.Z3_OP_STORE, z3.Z3_OP_ITE, z3.Z3_OP_CONST_ARRAY): return False
    return all(plain(c) for c in t.children())
def forall(vs, body, *pats):
    """quantifier with triggers where they are usable; as a goal it needs none"""
    ps = [p for p in pats if all(plain(t) for t in (p if isinstance(p, (list, tuple)) else [p]))]
    return z3.ForAll(vs, body, patterns=[z3.MultiPattern(*p) if isinstance(p, (list, tuple)) else p for p in ps])
PARENT, ID, SIZE, GT, LENO, CH, PLEN, PR, DATA = 0, 8, 12, 16, 20, 24, 32, 40, 16
def mk(s): return int.from_bytes(s.encode(), 'big')
FORM, CAT, LIST, PROP, JJJJ, TEXT = map(mk, ('FORM', 'CAT ', 'LIST', 'PROP', 'JJJJ', 'TEXT'))
GROUPS = (FORM, CAT, LIST, PROP)

class Heap:
    """accessors over one heap (a state's, or the constant one of a pure layer)"""
    def __init__(s, h): s.h = h
    def sel(s, hp, o, f): return z3.Select(z3.Select(s.h[hp], Z(o)), Z(f))
    def u32(s, o, f): return s.sel('M32', o, f)
    def s32(s, o, f): x = s.u32(o, f); return z3.If(x >= 2**31, x - 2**32, x)
    def id(s, o): return s.u32(o, ID)
    def size(s, o): return s.s32(o, SIZE)
    def gt(s, o): return s.u32(o, GT)
    def n(s, o): return s.u32(o, LENO)
    def child(s, o, i): return s.sel('PO', s.sel('PO', o, CH), 8 * Z(i))
    def np(s, o): return s.u32(o, PLEN)
    def prop(s, o, i): return s.sel('PO', s.sel('PO', o, PR), 8 * Z(i))
    def parent(s, o): return s.sel('PO', o, PARENT)
    def data(s, o): return s.sel('PO', o, DATA)
    def byte(s, o, i): return s.sel('M8', s.data(o), i)
def isin(x, ids): return z3.Or(*[x == k for k in ids])
def H(st): return Heap(st.h)

def registry_tables(eng):
    """[(id, PV of entry)], PV of the default entry: read from the initialisers in defaultregistry.c"""
    P = eng.prog; rid = P.ids['IFF_defaultChunkRegistry']
    st = State(eng)
    ld = lambda pv, ty: eng.load(st, pv, ty, check=False)
    if ld(PV(rid, 0), ir.INT(32)).e != 0: raise Unsupported('default registry has form specific chunk types')
    node = ld(PV(rid, 16), ir.PTR); dflt = ld(PV(rid, 24), ir.PTR)
    out, k = [], 0
    while node.obj != 0:
        n = ld(PV(node.obj, node.off), ir.INT(32)).e; tab = ld(PV(node.obj, node.off + 8), ir.PTR)
        for i in range(n):
            e = PV(tab.obj, tab.off + 64*i); cid = ld(PV(e.obj, e.off), ir.INT(32)).e
            if all(c != cid for c, _ in out): out.append((cid, e))
        node = ld(PV(node.obj, node.off + 16), ir.PTR)
    return out, dflt

class FindDefault(Contract):
    """IFF_findChunkType for the built-in registry (proved in the registry layer)"""
    fn = 'IFF_findChunkType'
    def default_arg(s, c, k, ty, st):
        return PV(c.eng.prog.ids['IFF_defaultChunkRegistry']) if k == 0 else None
    def _sel(s, eng, st, cid):
        tab, dflt = registry_tables(eng); rest = []; out = []
        for i, e in tab:
            q = eq(cid, i); rest.append(Not(q))
            n = feas(eng, st, q)
            if n: out.append((n, e))
        n = feas(eng, st, *rest)
        if n: out.append((n, dflt))
        return out
    def apply(s, eng, args, st):
        if not (isc(args[0].obj) and args[0].obj == eng.prog.ids['IFF_defaultChunkRegistry']):
            eng.prove(st, False, 'IFF_findChunkType is called with the registry that was passed in'); raise Unsupported('registry is not the one passed in')
        if not getattr(s, 'elsewhere', False): eng.used_contracts.add(s.fn)
        return s._sel(eng, st, args[2].u())
    def ensures(s, c):
        tab, dflt = registry_tables(c.eng); cid = c.u(2); r = c.ret; rest = []; E = []
        for i, e in tab:
            E.append((f'the entry of {i.to_bytes(4, "big").decode()} is found by its ID', Imp(cid == i, peq(r, e)))); rest.append(cid != i)
        E.append(('any other ID selects the default entry', Imp(And(rest), peq(r, dflt))))
        return E

class PureLayer(Layer):
    """nothing in the tree changes: the heap is one constant"""
    name = 'pure'
    def __init__(self):
        super().__init__()
        self.libc = dict(BASE); self.libc['bsearch'] = h_bsearch
        self.heap = {hp: z3.Const(hp + '_0', HEAP) for hp in ('PO', 'M8', 'M16', 'M32', 'M64')}
        self.T = Heap(self.heap)
        self.add(FindDefault)
    def init_state(self, eng):
        st = State(eng); st.h = dict(self.heap); st.g['nxt'] = z3.Int('nxt_0'); st.assume(st.g['nxt'] > HEAP0)
        return st

WF = z3.Function('WF', z3.IntSort(), z3.BoolSort())
ii = z3.Int('i!')
def wf_unfold(T, o):
    """what a well-formed tree means at one node"""
    o = Z(o); kid = T.child(o, ii); pr = T.prop(o, ii)
    rng = [z3.And(T.sel('M32', o, f) >= 0, T.sel('M32', o, f) < 2**32) for f in (ID, SIZE, GT, LENO, PLEN)]     # canonical 32 bit values
    return z3.And(*rng, z3.Implies(WF(o), z3.And(o > HEAP0, T.size(o) >= 0,
        z3.Implies(z3.And(isin(T.id(o), GROUPS), T.n(o) > 0), T.sel('PO', o, CH) > HEAP0), z3.Implies(z3.And(T.id(o) == LIST, T.np(o) > 0), T.sel('PO', o, PR) > HEAP0), z3.Implies(z3.And(z3.Not(isin(T.id(o), GROUPS)), T.size(o) > 0), T.data(o) > HEAP0),
        z3.Implies(isin(T.id(o), GROUPS), z3.ForAll([ii], z3.Implies(z3.And(ii >= 0, ii < T.n(o)), z3.And(WF(kid), kid > HEAP0, T.parent(kid) == o)), patterns=[kid])),
        z3.Implies(T.id(o) == LIST, z3.ForAll([ii], z3.Implies(z3.And(ii >= 0, ii < T.np(o)), z3.And(WF(pr), pr > HEAP0, T.parent(pr) == o, T.id(pr) == PROP)), patterns=[pr])))))

class PureContract(Contract):
    """a function that gets trees and (as argument `reg`) the built-in registry, and changes nothing"""
    reg = None
    nonnull = ()
    trees = ()         # arguments that are well-formed trees
    kind = None        # IDs the first tree may have
    def facts(s, c): return [wf_unfold(s.layer.T, c.o(k)) for k in s.trees] + s.defs(c)
    def defs(s, c): return []
    def tree_requires(s, c):
        T = s.layer.T
        out = [(f'argument {k} is a well-formed tree', WF(c.o(k))) for k in s.trees] + [(f'argument {k} is not NULL', c.o(k) != 0) for k in s.nonnull]
        if s.kind: out.append(('the chunk is of the kind of this function', isin(T.id(c.o(s.trees[0])), s.kind)))
        return out + s.extra(c)
    def extra(s, c): return []
    def default_arg(s, c, k, ty, st):
        if k == s.reg: return PV(c.eng.prog.ids['IFF_defaultChunkRegistry'])
        return None
    def requires(s, c):
        out = s.tree_requires(c)
        if s.reg is not None: out.append(('the registry is the one passed in', peq(c.a[s.reg], PV(c.eng.prog.ids['IFF_defaultChunkRegistry']))))
        return out
    def unchanged(s, c):
        T0 = c.old.h
        return [('nothing in memory changes', z3.And(*[c.new.h[h] == T0[h] for h in T0]))]
def nullable_registry(cls):
    """wrapper functions also accept NULL, meaning the built-in registry"""
    class W(cls):
        def cases(s): return ['NULL registry', 'registry given']
        def setup(s, c, st, case):
            c.a[s.reg] = PV(0) if case == 'NULL registry' else PV(c.eng.prog.ids['IFF_defaultChunkRegistry'])
        def requires(s, c): return s.tree_requires(c) + [('the registry is NULL or the one passed in', Or(peq(c.a[s.reg], PV(0)), peq(c.a[s.reg], PV(c.eng.prog.ids['IFF_defaultChunkRegistry']))))]
    W.__name__ = cls.__name__; return W

# ---------------------------------------------------------------- bsearch
def run_comparator(eng, st, fp, a, b):
    """([(condition, result)], facts) of calling the comparison function; it must not change anything. What all paths share (ranges of the loaded values) is a fact"""
    n0 = len(st.pc); eng.quiet += 1
    try: outs = eng.call_id(fp.obj, [a, b], st.copy())
    finally: eng.quiet -= 1
    pcs = [[q for q in o.pc[n0:] if not isinstance(q, bool)] for o, r in outs]
    common = set.intersection(*[{q.get_id() for q in p} for p in pcs]) if pcs else set()
    facts = [q for q in pcs[0] if q.get_id() in common] if pcs else []
    return [(And([q for q in p if q.get_id() not in common]), r) for p, (o, r) in zip(pcs, outs)], facts
def h_bsearch(eng, st, a, ins):
    key, base, n, size, fp = a
    if not (isc(fp.obj) and isc(size.e)): raise Unsupported('bsearch with unknown comparator or size')
    es = size.e; cnt = n.u()
    def sign(k, op, facts=None):
        outs, fs = run_comparator(eng, st, fp, key, PV(base.obj, base.off, add(base.sym, mul(k, es))))
        if facts is not None: facts.extend(fs)
        return Or([And(c, {'eq': eq(r.s(), 0), 'lt': lt(r.s(), 0), 'gt': lt(0, r.s())}[op]) for c, r in outs])
    out = []
    if isc(cnt):
        ks = list(range(cnt))
        for i in range(1, cnt):
            eng.prove(st, Not(And(Not(sign(i-1, 'gt')), sign(i, 'gt'))), f'bsearch: table is sorted for the comparator ({i})')
            eng.prove(st, Not(And(sign(i-1, 'lt'), Not(sign(i, 'lt')))), f'bsearch: table is sorted for the comparator ({i}b)')
        for k in ks:
            s = feas(eng, st, sign(k, 'eq'))
            if s: out.append((s, PV(base.obj, base.off, add(base.sym, k*es))))
        s = feas(eng, st, *[Not(sign(k, 'eq')) for k in ks])
        if s: out.append((s, PV(0)))
        return out
    i, j = fresh('bi'), fresh('bj'); ps = st.copy(); F = []
    q = And(Not(And(Not(sign(i, 'gt', F)), sign(j, 'gt', F))), Not(And(sign(i, 'lt'), Not(sign(j, 'lt')))))
    ps.assume(i >= 0, i < j, j < Z(cnt), *F)
    eng.prove(ps, q, 'bsearch: table is sorted for the comparator')
    k = fresh('found'); F = []; found = sign(k, 'eq', F)
    s = feas(eng, st, k >= 0, k < Z(cnt), And(F), found)
    if s: out.append((s, PV(base.obj, base.off, add(base.sym, mul(k, es)))))
    s = st.copy(); b = z3.Int('bi!'); body = lambda x: z3.Implies(z3.And(x >= 0, x < Z(cnt)), Z(Not(sign(x, 'eq'))))
    s.assume(z3.ForAll([b], body(b)))
    if hasattr(eng.layer, 'bsearch_witness'):      # instances at the index where the specification has the key
        for x in eng.layer.bsearch_witness(base.obj, eng.load(s, key, ir.INT(32), check=False).u()): s.assume(body(x))
    out.append((s, PV(0)))
    return out

def block_hints(L, total, buf, done):
    """loop invariants for `total` bytes processed in blocks: for each counter x (bytes done, bytes left, offset of a pointer into the buffer), done(x)"""
    out = []; mn = lambda x: z3.If(x < total, x, total)
    ints = [(n, Z(v.s())) for n, v in L.phi.items() if isinstance(v, IV)] + [(n, Z(v1.s())) for n, (v0, v1) in L.cell.items() if isinstance(v0, IV) and isinstance(v1, IV)]
    ptrs = [(n, v) for n, v in [*L.phi.items(), *((n, v1) for n, (v0, v1) in L.cell.items())] if isinstance(v, PV) and buf is not None and not (isc(v.obj) and v.obj <= 0)]
    cs = [(n + w, x) for n, v in ints for w, x in (('', v), (' (left)', total - v))] + [(n, Z(v.offset())) for n, v in ptrs]
    out += [(f'{n}: points into the buffer', z3.And(Z(v.obj) == buf, Z(v.offset()) >= 0)) for n, v in ptrs]
    for n, x in cs: out += [(f'{n}: not negative', x >= 0), (f'{n}: within the bytes', x <= total), (f'{n}: the bytes up to there', done(x)), (f'{n}: the bytes up to there, if any are left', done(mn(x)))]
    return out
