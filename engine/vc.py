"""Verification-condition generator: symbolic execution of LLVM IR functions against contracts."""
import time, z3, itertools, os
import ir
from sym import *

class Unsupported(Exception): pass
def limit(s, ms):
    """the limit is on the work of the solver, so that the outcome does not depend on the load of the machine; the time only guards against a stall"""
    s.set('rlimit', int(ms) * 1500); s.set('timeout', int(ms) * 5)

class NeedInvariant(Exception): pass

GBASE = 1000          # ids of globals and functions; heap objects start above HEAP0
HEAP0 = 100000

class Program:
    def __init__(self, mods):
        self.mods = mods
        self.ext = {}; self.ids = {}; self.byid = {}
        nid = GBASE
        for m in mods:
            for f in m.fns.values():
                nid += 1
                key = (m.name, f.name) if f.internal else f.name
                f.key = key; f.id = nid; self.ids[key] = nid; self.byid[nid] = f
                if not f.internal: self.ext[f.name if f.name != 'main' else m.name + ':main'] = f      # the programs each have one
            for g, (ty, init, const, internal) in m.globals.items():
                key = (m.name, g) if internal else g
                if init is None and not internal: continue
                nid += 1; self.ids[key] = nid; self.byid[nid] = (m, g, ty, init, const)
        self.extra = nid
    def resolve(self, name, m):
        """id of a symbol as seen from module m"""
        k = (m.name, name)
        if k in self.ids: return self.ids[k]
        if name in self.ids: return self.ids[name]
        self.extra += 1; self.ids[name] = self.extra; self.byid[self.extra] = name   # library symbol
        return self.extra
    def recursive(self, f):
        """does f call itself, directly or through other functions (indirect calls not followed)?"""
        if not hasattr(self, '_cg'):
            self._cg = {}
            for m in self.mods:
                for g in m.fns.values():
                    out = set()
                    for blk in g.blocks.values():
                        for ins in blk:
                            if ins.op == 'call' and ins.a[1][0] == 'global':
                                t = self.byid.get(self.resolve(ins.a[1][1], m))
                                if isinstance(t, ir.Fn): out.add(t)
                    self._cg[g] = out
        seen, st = set(), list(self._cg[f])
        while st:
            g = st.pop()
            if g is f: return True
            if g in seen: continue
            seen.add(g); st += list(self._cg[g])
        return False
    def fn(self, name):
        if name in self.ext: return self.ext[name]
        c = [m.fns[name] for m in self.mods if name in m.fns]
        return c[0] if len(c) == 1 else None

class State:
    __slots__ = ('pc', 'h', 'cells', 'g', 'eng')
    def __init__(s, eng): s.pc, s.h, s.cells, s.g, s.eng = [], {}, {}, {}, eng
    def copy(s):
        n = State(s.eng); n.pc = list(s.pc); n.h = dict(s.h); n.g = dict(s.g)
        n.cells = {k: dict(v) for k, v in s.cells.items()}
        return n
    def assume(s, *fs):
        for f in fs:
            if isinstance(f, (list, tuple)): s.assume(*f); continue
            if f is True: continue
            if f is False: f = z3.BoolVal(False)
            s.pc.append(f)
    # typed heap access (object expr, offset expr)
    def sel(s, hp, o, f): return z3.Select(z3.Select(s.h[hp], Z(o)), Z(f))
    def p(s, o, f): return s.sel('PO', o, f)
    def u32(s, o, f): return s.sel('M32', o, f)
    def s32(s, o, f):
        x = s.u32(o, f); return z3.If(x >= 2**31, x - 2**32, x)
    def u8(s, o, f): return s.sel('M8', o, f)
    def put(s, hp, o, f, v):
        s.h[hp] = z3.Store(s.h[hp], Z(o), z3.Store(z3.Select(s.h[hp], Z(o)), Z(f), Z(v)))
    # location access through a pointer value, e.g. an out parameter
    def loc(s, pv, ty='i32'):
        return s.eng.load(s, pv, ir.PTR if ty == 'ptr' else ir.INT(int(ty[1:])), check=False)
    def setloc(s, pv, val, ty='i32'):
        s.eng.store(s, pv, ir.PTR if ty == 'ptr' else ir.INT(int(ty[1:])), val, check=False)

HK = {1: 'M8', 2: 'M16', 4: 'M32', 8: 'M64'}

class Ctx:
    """what a contract sees"""
    def __init__(s, eng, con, args, old): s.eng, s.con, s.a, s.old, s.new, s.ret = eng, con, args, old, None, None; s.ghost = {}
    def o(s, k):
        v = s.a[k]
        if isinstance(v, PV): return Z(v.obj)
        raise Unsupported('pointer argument expected')
    def i(s, k): return s.a[k]
    def u(s, k): return Z(s.a[k].u())
    def s(s, k): return Z(s.a[k].s())
    @property
    def rb(s): return s.ret.nz()
    @property
    def ro(s): return Z(s.ret.obj)

class Contract:
    fn = None
    out = {}              # arg index -> type of the location it points to ('i32'); a local cell when verifying
    modifies = ()         # heap maps / ghosts / ('out', k)
    may_alloc = False
    only_if_recursive = False   # contract of an internal function, used only where inlining cannot work
    def __init__(s, layer): s.layer = layer
    def requires(s, c): return []
    def facts(s, c): return []           # unfoldings of spec definitions, assumed on entry
    def ensures(s, c): return []
    def post_facts(s, c): return []      # spec unfoldings assumed only when verifying the postcondition
    def hints(s, c, L): return []        # loop invariant candidates (name, formula)
    def loop_facts(s, c, L): return []   # spec unfoldings for one loop activation (definitional, hence assumed)
    def folds(s, c, L): return []        # functions k -> expr for accumulator candidates
    def cases(s): return [None]
    def setup(s, c, st, case): pass
    def havoc(s, c, st):
        for m in s.modifies:
            if isinstance(m, tuple): 
                k = m[1]; ty = s.out[k]
                st.setloc(c.a[k], s.layer.eng_fresh(ty, f'out{k}'), ty)
            elif m in st.h: st.h[m] = fresh(m, HEAP)
            else: st.g[m] = fresh(m, st.g[m].sort())
    def default_arg(s, c, k, ty, name): return None

class Layer:
    name = '?'
    mem = False
    memcpy_heaps = ('M8',)
    proof_ghosts = ()     # ghosts local to one activation: callers never see them
    def __init__(self): self.contracts = {}; self.libc = {}; self.axioms = []
    def add(self, cls): c = cls(self); self.contracts[c.fn] = c; return c
    def init_state(self, eng):
        st = State(eng)
        for hp in ('PO', 'M8', 'M16', 'M32', 'M64'): st.h[hp] = fresh(hp, HEAP)
        st.g['nxt'] = fresh('nxt'); st.assume(st.g['nxt'] > HEAP0)
        return st
    def eng_fresh(self, ty, nm):
        if ty == 'ptr': return PV(fresh(nm))
        return freshint(int(ty[1:]), nm)
    def indirect(self, eng, st, fp, args, ins, ctx): raise Unsupported('indirect call')
    def on_load(self, eng, st, pv, ty): pass
    def on_store(self, eng, st, pv, ty, v): pass

_facts = {}
def freshint(n, nm, signed=False):
    x = fresh(nm)
    _facts[x.get_id()] = (x, n, signed)
    if n == 1: return boolIV(fresh(nm, 'Bool'))
    return IV(n, x, -(1 << (n-1)) if signed else 0, (1 << (n-1)) - 1 if signed else (1 << n) - 1)
def rangefact(iv):
    if isc(iv.e): return True
    return z3.And(iv.e >= iv.lo, iv.e <= iv.hi)

def has_quant(f, two=False):
    st = [f]; seen = set()
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            if not two or x.num_vars() > 1: return True
            st.append(x.body())
        st += x.children()
    return False

class Obl:
    def __init__(s, fn, name, status, secs, detail='', backend='z3'): s.fn, s.name, s.status, s.secs, s.detail, s.backend = fn, name, status, secs, detail, backend

class Path:
    __slots__ = ('b', 'i', 'prev', 'env', 'st', 'flag')
    def __init__(s, b, i, prev, env, st, flag=False): s.b, s.i, s.prev, s.env, s.st, s.flag = b, i, prev, env, st, flag

def ops_of(ins):
    """names of the local values an instruction uses"""
    out = []
    def walk(x):
        if isinstance(x, tuple) and len(x) == 2 and x[0] == 'local': out.append(x[1])
        elif isinstance(x, (tuple, list)):
            for y in x: walk(y)
        elif isinstance(x, dict):
            for y in x.values(): walk(y)
    walk(ins.a); return out

class LoopView:
    down = property(lambda s: any(isinstance(d, int) and d < 0 for d in s.steps.values()))      # something counts down
    """what hints/folds see for one loop activation"""
    pass

class Engine:
    def __init__(self, prog, layer, timeout=10000, maxpaths=4000):
        self.prog, self.layer, self.timeout = prog, layer, timeout
        self.obls = []; self.cur = None; self.ctx = None
        self.fs = z3.SimpleSolver(); limit(self.fs, 1500); self.fstack = []
        self.qcache = {}; self.hcache = {}
        self.depth = 0; self.npaths = 0; self.maxpaths = maxpaths
        self.cellid = -1
        self.solver_s = 0.0
        self.quiet = 0
        self.deadline = None
        self.smt_dump = None
        self.inlined = set(); self.used_contracts = set(); self.used_libc = set()
        layer.eng = self
        self.callstack = []; self.va = []; self.va_of = {}

    # ---------- solver
    def ground(self, f):
        k = f.get_id()
        if k not in self.qcache: self.qcache[k] = (f, not has_quant(f))
        return self.qcache[k][1]
    def heavy(self, f):
        """has a quantifier over two or more variables"""
        if isinstance(f, bool): return False
        k = f.get_id()
        if k not in self.hcache: self.hcache[k] = (f, has_quant(f, two=True))
        return self.hcache[k][1]
    def feasible(self, pc, extra=True):
        if extra is False: return False
        if extra is True: return True
        t = time.time()
        pc = [f for f in pc if self.ground(f)]
        n = 0
        while n < len(pc) and n < len(self.fstack) and self.fstack[n].eq(pc[n]): n += 1
        if n < len(self.fstack):
            self.fs.pop(len(self.fstack) - n); del self.fstack[n:]
        for f in pc[n:]:
            self.fs.push(); self.fs.add(f); self.fstack.append(f)
        self.fs.push(); self.fs.add(extra)
        r = self.fs.check()
        self.fs.pop()
        self.solver_s += time.time() - t
        return r != z3.unsat
    retries = 0; seed = seed0 = 0
    def check_valid(self, pc, goal, timeout=None):
        r, s = self.check1(pc, goal, timeout)
        if r.startswith('undecided') and getattr(self.layer, 'split', False): r, s = self.prove_split(pc, goal, r, s, timeout)
        return r, s
    def check1(self, pc, goal, timeout=None):
        """'ok' | 'fail' | 'unknown', model"""
        self.tick()
        if goal is True: return 'ok', None
        if goal is False: goal = z3.BoolVal(False)
        t = time.time(); to = timeout or self.timeout
        r = None; heavy = [self.heavy(f) for f in pc]
        # quantifiers are instantiated by their triggers only; first without the hypotheses over pairs of variables, last with z3's own preprocessing
        stages = ([('simple', True)] if not self.heavy(goal) and any(heavy) else []) + [('simple', False), ('full', False)]
        for kind, light in stages:
            if kind == 'full' and not any(not self.ground(f) for f in pc) and self.ground(goal): break
            s = z3.SimpleSolver() if kind == 'simple' else z3.Solver()
            limit(s, to // 2 if light else min(to, 6000) if kind == 'full' else to); s.set('smt.mbqi', False)
            if self.seed: s.set('smt.random_seed', self.seed)
            for a in self.layer.axioms: s.add(a)
            for f, h in zip(pc, heavy):
                if not (light and h): s.add(f)
            s.add(z3.Not(goal))
            r = s.check()
            if r == z3.unsat or r == z3.sat and not light: break
        self.solver_s += time.time() - t
        if r == z3.unsat: return 'ok', s
        if r == z3.sat: return 'fail', s
        return ('undecided:' + s.reason_unknown()), s
    def prove(self, st, goal, name):
        """record an obligation"""
        if self.quiet: return True
        t = time.time()
        r, s = self.check_valid(st.pc, goal)
        while r.startswith('undecided') and self.retries < 4:       # the search of the solver depends on luck
            self.retries += 1; self.seed = self.seed0 + 7 * self.retries; r, s = self.check_valid(st.pc, goal)
        self.seed = self.seed0
        detail = ''
        if r != 'ok':
            detail = self.explain(s, goal, st) if s is not None else str(goal)
        self.obls.append(Obl(self.cur, name, r, time.time() - t, detail))
        if self.smt_dump is not None and s is not None: self.smt_dump(self.cur, name, s)
        return r == 'ok'
    def prove_split(self, pc, goal, r0, s0, timeout):
        """the same goal in pieces: the quantified variables as constants, conjuncts one by one, and one case for each location written that a variable may denote"""
        def flat(hy, q):
            if z3.is_implies(q): yield from flat(hy + [q.arg(0)], q.arg(1))
            elif z3.is_and(q):
                for x in q.children(): yield from flat(hy, x)
            elif z3.is_quantifier(q) and q.is_forall(): yield from flat(hy, self.skolem(q)[0])
            else: yield hy, q
        if isinstance(goal, bool) or not z3.is_quantifier(goal): return r0, s0
        body, vs = self.skolem(goal); deadline = time.time() + 60
        for case, sub in self.write_cases(body, vs):
            for hy, q in flat([], z3.simplify(z3.substitute(body, *sub)) if sub else body):
                if time.time() > deadline: return r0, s0
                self.tick(); r, s = self.check_seeds(pc + case + hy, q)
                if r != 'ok': return r, s
        return 'ok', None
    def check_seeds(self, pc, goal):
        """the time of the search varies a lot: many short attempts"""
        t = time.time()
        for k in range(8):
            s = z3.SimpleSolver(); limit(s, 1000 + 500 * k); s.set('smt.mbqi', False); s.set('smt.random_seed', 11 * k)
            s.add(*self.layer.axioms, *pc, z3.Not(goal)); r = s.check()
            if r != z3.unknown: break
        self.solver_s += time.time() - t
        return ('ok' if r == z3.unsat else 'fail' if r == z3.sat else 'undecided:' + s.reason_unknown()), s
    def skolem(self, q):
        vs = [z3.FreshConst(q.var_sort(i), 'sk_' + q.var_name(i).strip('!')) for i in range(q.num_vars())]
        return z3.substitute_vars(q.body(), *reversed(vs)), vs
    def write_cases(self, body, vs):
        """[(hypotheses, substitution)]: a variable is / is not the index of a store it is looked up in"""
        found = {}; seen = set(); todo = [body]; ids = {v.get_id(): v for v in vs}
        while todo:
            x = todo.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id()); todo += x.children()
            if z3.is_select(x) and x.arg(1).get_id() in ids:
                a = x.arg(0)
                while z3.is_store(a): found[(x.arg(1).get_id(), a.arg(1).get_id())] = (x.arg(1), a.arg(1)); a = a.arg(0)
        cases = [([], [])]
        for v, i in list(found.values())[:3]:
            if z3.is_const(i) and i.get_id() == v.get_id(): continue
            cases = [(c + [v == i], sb + [(v, i)]) if any(x.get_id() == v.get_id() for x, _ in sb) is False else (c + [v == i], sb) for c, sb in cases] + [(c + [v < i], sb) for c, sb in cases] + [(c + [v > i], sb) for c, sb in cases]
        return cases
    def explain(self, s, goal, st):
        out = ['goal: ' + str(goal)[:1500]]
        try:
            m = s.model()
            ds = sorted(((d.name(), str(m[d])[:200]) for d in m.decls() if d.arity() == 0))
            out.append('model: ' + ', '.join(f'{a}={b}' for a, b in ds[:60]))
        except z3.Z3Exception: out.append('no model (solver answered unknown)')
        out.append('path: ' + ' & '.join(str(x)[:160].replace('\n', ' ') for x in st.pc[-14:]))
        return '\n'.join(out)

    big = False
    def bp(self, i, n):
        """bit-group index of the i-th byte in memory of an n-byte integer"""
        return n-1-i if self.big else i
    # ---------- memory
    def is_cell(self, pv): return isc(pv.obj) and pv.obj < 0
    def new_cell(self, st, init=None):
        self.cellid -= 1
        st.cells[self.cellid] = dict(init or {})
        return PV(self.cellid)
    def load(self, st, pv, ty, check=True):
        if isinstance(pv, UV): raise Unsupported('load through undef')
        if check: self.layer.on_load(self, st, pv, ty)
        size = 8 if ty.k == 'ptr' else max(1, ty.n // 8) if ty.k == 'int' else None
        if size is None: raise Unsupported(f'load of {ty}')
        if self.is_cell(pv):
            return self.cell_load(st, pv, ty, size)
        if isc(pv.obj) and pv.obj in self.prog.byid:
            g = self.prog.byid[pv.obj]
            if isinstance(g, tuple) and g[3] is not None and (g[4] or self.layer_const(g)):
                if not isc(pv.sym): raise Unsupported('symbolic offset into a constant global')
                v = self.global_init(g[0], g[2], g[3], pv.offset(), ty)
                if v is not None: return v
        if ty.k == 'ptr':
            e = st.p(pv.obj, pv.offset())
            st.assume(e >= 0)
            return PV(e, 0, 0, prov=(pv.obj, pv.sym, pv.off))
        n = size * 8
        e = st.sel(HK[size], pv.obj, pv.offset())
        e = z3.simplify(e) if False else e
        st.assume(z3.And(e >= 0, e < 2**n))
        return IV(n, e, 0, 2**n - 1)
    def layer_const(self, g): return g[1].startswith('IFF_') and g[2].k in ('struct', 'array')
    def global_init(self, m, ty, init, off, want):
        """value of type want at byte offset off of a constant initialiser"""
        if init[0] == 'zero':
            return PV(0) if want.k == 'ptr' else IV(want.n, 0)
        if ty.k in ('int', 'ptr'):
            if off != 0: return None
            return self.const(m, want, init)
        if ty.k == 'array':
            if init[0] == 'bytes':
                if want.k == 'int' and want.n == 8 and off < len(init[1]): return IV(8, init[1][off])
                return None
            es = ir.sizeof(ty.elems, m); k = off // es
            if k >= len(init[1]): return None
            return self.global_init(m, ty.elems, init[1][k][1], off % es, want)
        for (o, et), (t2, v) in zip(ir.offsets(ty, m), init[1]):
            if o <= off < o + ir.sizeof(et, m): return self.global_init(m, et, v, off - o, want)
        return None
    def cell_load(self, st, pv, ty, size):
        c = st.cells.get(pv.obj)
        if c is None: raise Unsupported('dead local')
        if not isc(pv.sym):
            # symbolic index into a local array
            ks = sorted(k for k in c if isinstance(k, int) and c[k][0] == size)
            if not ks: raise Unsupported('symbolic index into local')
            off = pv.offset()
            if self.quiet == 0: self.prove(st, Or([eq(off, k) for k in ks]), 'local array index in range')
            r = None
            for k in ks:
                v = c[k][1]
                if not isinstance(v, IV): raise Unsupported('symbolic index into pointer local')
                r = v.u() if r is None else ite(eq(off, k), v.u(), r)
            return IV(size*8, r, 0, 2**(size*8)-1)
        off = pv.off + pv.sym
        if off in c and c[off][0] == size:
            v = c[off][1]
            if isinstance(v, UV): return v
            if (ty.k == 'ptr') != isinstance(v, PV):
                raise Unsupported('type pun in local')
            return v
        sl = []
        for i in range(size):
            hit = None
            for k, (sz, v) in c.items():
                if k <= off+i < k+sz and isinstance(v, IV):
                    a, d = self.bp(off+i-k, sz), self.bp(i, size); hit = cut(v.slices(), 8*a, 8*a+8, 8*d - 8*a)
            if hit is None:
                if 'default' in st.g.get(('celldef', pv.obj), ()): pass
                return UNDEF
            sl += hit
        return from_slices(size*8, sl)
    def store(self, st, pv, ty, v, check=True):
        if isinstance(pv, UV): raise Unsupported('store through undef')
        if check: self.layer.on_store(self, st, pv, ty, v)
        size = 8 if ty.k == 'ptr' else max(1, ty.n // 8)
        if self.is_cell(pv):
            c = st.cells[pv.obj]
            if not isc(pv.sym):
                off = pv.offset()
                ks = sorted(k for k in c if c[k][0] == size)
                if not ks: raise Unsupported('symbolic store into local')
                self.prove(st, Or([eq(off, k) for k in ks]), 'local array index in range')
                for k in ks: c[k] = (size, IV(size*8, ite(eq(off, k), v.u(), c[k][1].u()), 0, 2**(size*8)-1))
                return
            off = pv.off + pv.sym
            for k in list(c):
                if k < off+size and off < k+c[k][0] and (k, c[k][0]) != (off, size):
                    sz, old = c.pop(k)
                    if isinstance(old, IV):
                        for i in range(sz):
                            a = self.bp(i, sz); c[k+i] = (1, from_slices(8, cut(old.slices(), 8*a, 8*a+8, -8*a)))
            for k in list(c):
                if off <= k < off+size and k != off: del c[k]
            c[off] = (size, v); return
        if isinstance(v, UV):
            v = PV(fresh('undef')) if ty.k == 'ptr' else freshint(size*8, 'undef')
        if isc(pv.obj) and pv.obj in self.prog.byid: raise Unsupported('store to a global')
        if ty.k == 'ptr':
            if self.is_cell(v): raise Unsupported('address of a local stored in the heap')
            o = v.offset()
            if not (isc(o) and o == 0): self.prove(st, Or(eq(v.obj, 0), eq(o, 0)), 'stored pointers point to the start of an object')
            st.put('PO', pv.obj, pv.offset(), v.obj)
        else:
            st.put(HK[size], pv.obj, pv.offset(), v.u())

    # ---------- operands
    def const(self, m, ty, v):
        k = v[0]
        if k == 'int': return boolIV(bool(v[1] & 1)) if ty.n == 1 else IV(ty.n, v[1])
        if k in ('null',): return PV(0)
        if k == 'zero': return PV(0) if ty.k == 'ptr' else IV(ty.n, 0)
        if k == 'undef': return UNDEF
        if k == 'global': return PV(self.prog.resolve(v[1], m))
        if k == 'cgep':
            base = self.const(m, ir.PTR, v[2][0][1])
            return self.gep(m, v[1], base, [(t, self.const(m, t, x)) for t, x in v[2][1:]])
        raise Unsupported('constant ' + str(v)[:80])
    def val(self, fr, env, ty, v):
        if v[0] == 'local':
            if v[1] not in env: raise Unsupported('value %' + v[1])
            return env[v[1]]
        return self.const(fr.module, ty, v)
    def gep(self, m, bt, base, idx):
        if isinstance(base, UV): raise Unsupported('gep undef')
        off = base.off; sym = base.sym; t = bt
        for j, (it, iv) in enumerate(idx):
            if isinstance(iv, UV): raise Unsupported('gep undef index')
            if j > 0 and t.k in ('struct', 'lit'):
                o, t = ir.offsets(t, m)[iv.s()]; off += o; continue
            if j > 0: t = t.elems
            sz = ir.sizeof(t, m)
            i = iv.s()
            if isc(i): off += i * sz
            else: sym = add(sym, mul(i, sz))
        return PV(base.obj, off, sym, base.prov)

    # ---------- execution
    def verify(self, con):
        """verify one contract; obligations are appended to self.obls"""
        f = self.prog.fn(con.fn)
        if f is None: raise Unsupported('function ' + con.fn + ' not found')
        for case in con.cases():
            self.cur = con.fn + (f'[{case}]' if case is not None else '')
            st = self.layer.init_state(self)
            args = []
            ctx = Ctx(self, con, args, None)
            for k, (nm, ty) in enumerate(f.params):
                v = con.default_arg(ctx, k, ty, st)
                if v is None:
                    if k in con.out:
                        t = con.out[k]; cell = self.new_cell(st); x = self.layer.eng_fresh(t, f'arg{k}')
                        if isinstance(x, IV): st.assume(rangefact(x))
                        self.store(st, cell, ir.PTR if t == 'ptr' else ir.INT(int(t[1:])), x, check=False)
                        v = cell
                    elif ty.k == 'ptr':
                        v = PV(fresh(f'a{k}')); st.assume(v.obj >= 0, v.obj < st.g['nxt'])
                        st.assume(z3.Or(v.obj == 0, v.obj > GBASE))
                    elif ty.k == 'int':
                        v = freshint(ty.n, f'a{k}')
                        if not isc(v.e) and v.b is None: st.assume(rangefact(v))
                    else: raise Unsupported('parameter type')
                args.append(v)
            con.setup(ctx, st, case)
            ctx.old = st.copy()
            for nm, q in con.requires(ctx): st.assume(q)
            for q in con.facts(ctx): st.assume(q)
            ctx.old = st.copy(); self.ctx = ctx
            # vacuity: the precondition must be satisfiable
            s = z3.SimpleSolver(); limit(s, 4000)
            for q in st.pc:
                if self.ground(q): s.add(q)
            r = s.check()
            self.obls.append(Obl(self.cur, 'precondition is satisfiable', 'ok' if r != z3.unsat else 'fail', 0, ''))
            res = self.run_fn(f, list(args), st)
            n = 0
            for (st2, ret) in res:
                n += 1
                c2 = Ctx(self, con, args, ctx.old); c2.new = st2; c2.ret = ret; c2.ghost = ctx.ghost
                for q in con.post_facts(c2): st2.assume(q)
                for nm, q in con.ensures(c2): self.prove(st2, q, f'post: {nm} (path {n})')
                self.frame(con, ctx.old, st2, n)
            self.obls.append(Obl(self.cur, 'function has a terminating path', 'ok' if n else 'fail', 0, ''))

    def frame(self, con, old, st, n):
        """what the contract does not list as modified is unchanged; heaps: at every object that existed on entry"""
        mods = set(x for x in con.modifies if not isinstance(x, tuple)); o = z3.Int('o!fr')
        for hp in st.h:
            if hp in mods or st.h[hp].eq(old.h[hp]): continue
            self.prove(st, z3.ForAll([o], z3.Implies(o < old.g['nxt'], z3.Select(st.h[hp], o) == z3.Select(old.h[hp], o))), f'frame: {hp} is unchanged (path {n})')
        for g in old.g:
            if g in mods or g == 'nxt' or g in self.layer.proof_ghosts or self.same(st.g.get(g), old.g[g]) or not isinstance(old.g[g], z3.ExprRef): continue
            self.prove(st, st.g[g] == old.g[g], f'frame: {g} is unchanged (path {n})')
    def run_fn(self, f, args, st):
        if self.depth > 40 or self.callstack.count(f) > 3:
            raise Unsupported(f'recursive call of {f.name} without a contract')
        if f.irreducible: raise Unsupported('irreducible control flow in ' + f.name)
        self.depth += 1; self.callstack.append(f)
        env = {}
        for (nm, ty), a in zip(f.params, args): env[nm] = a
        self.va.append(args[len(f.params):] if f.vararg else None)
        rets, exits, backs = self.explore(f, [Path(f.entry, 0, None, env, st)], None)
        self.va.pop()
        self.depth -= 1; self.callstack.pop()
        return rets

    def explore(self, f, paths, loop, guard=None):
        """run paths until return or (when inside a loop) until they leave it or reach its header again (or leave the blocks of guard)"""
        rets, exits, backs = [], [], []
        work = list(paths)
        while work:
            p = work.pop()
            self.tick()
            blk = f.blocks[p.b]
            # phis on entry
            if p.i == 0:
                newv = {}
                for ins in blk:
                    if ins.op != 'phi': break
                    newv[ins.res] = self.val(f, p.env, ins.a[0], ins.a[1][p.prev])
                if newv: p.env = {**p.env, **newv}
                while p.i < len(blk) and blk[p.i].op == 'phi': p.i += 1
            done = False
            while not done:
                ins = blk[p.i]; p.i += 1
                op = ins.op; a = ins.a
                if op in ('br', 'cbr', 'switch'):
                    succs = []
                    if op == 'br': succs = [(True, a[0])]
                    elif op == 'cbr':
                        c = self.val(f, p.env, ir.INT(1), a[0])
                        if isinstance(c, UV): raise Unsupported('branch on undef')
                        b = c.nz()
                        if a[1] == a[2]: succs = [(True, a[1])]
                        else: succs = [(b, a[1]), (Not(b), a[2])]
                    else:
                        v = self.val(f, p.env, a[0], a[1]); rest = []
                        for cv, lb in a[3]:
                            q = icmp('eq', v, IV(a[0].n, cv)).nz(); succs.append((q, lb)); rest.append(Not(q))
                        succs.append((And(rest), a[2]))
                    live = [(q, s) for (q, s) in succs if q is not False]
                    exits_const = loop is not None and any(q is False for q, s in succs) and any(s not in f.loops[loop] for q, s in succs) and self.counter_branch(f, loop, p.b)
                    if len(live) > 1:
                        live = [(q, s) for (q, s) in live if self.feasible(p.st.pc, q)]
                    elif len(succs) > 1 and loop is not None and live and live[0][0] is not True:
                        pass
                    for j, (q, s) in enumerate(live):
                        st = p.st.copy() if len(live) > 1 else p.st
                        if q is not True: st.assume(q)
                        np = Path(s, 0, p.b, p.env, st, p.flag or exits_const)
                        if loop is not None and s == loop: backs.append(np)
                        elif guard is not None and s in f.loops[loop] and s not in guard: backs.append(np)
                        elif loop is not None and s not in f.loops[loop]: exits.append(np)
                        elif s in f.loops and not (p.b in f.loops[s]):
                            r2, e2 = self.handle_loop(f, s, np)
                            rets += r2
                            for e in e2:
                                e.flag = np.flag
                                if loop is not None and e.b == loop: backs.append(e)
                                elif loop is not None and e.b not in f.loops[loop]: exits.append(e)
                                elif e.b in f.loops and e.prev not in f.loops[e.b]:
                                    # leaving one loop straight into another's header
                                    work.append(Path('#enter', 0, None, None, None)); work.pop()
                                    r3, e3 = self.handle_loop(f, e.b, e); rets += r3; work += e3
                                else: work.append(e)
                        else: work.append(np)
                    done = True
                elif op == 'ret':
                    v = UNDEF if a[1] is None else self.val(f, p.env, a[0], a[1])
                    rets.append((p.st, v)); done = True; self.npaths += 1
                    if self.npaths > self.maxpaths: raise Unsupported('too many paths')
                elif op == 'unreachable': done = True
                elif op == 'select':
                    c = self.val(f, p.env, ir.INT(1), a[0]).nz()
                    x, y = self.val(f, p.env, a[1], a[2]), self.val(f, p.env, a[1], a[3])
                    if isinstance(c, bool): p.env = {**p.env, ins.res: x if c else y}
                    else:
                        for q, v in ((c, x), (Not(c), y)):
                            if self.feasible(p.st.pc, q):
                                st = p.st.copy(); st.assume(q)
                                work.append(Path(p.b, p.i, p.prev, {**p.env, ins.res: v}, st, p.flag))
                        done = True
                elif op == 'call':
                    outs = self.do_call(f, p, ins)
                    if len(outs) == 1:
                        p.st, r = outs[0]
                        if ins.res is not None: p.env = {**p.env, ins.res: r}
                    else:
                        for st, r in outs:
                            env = {**p.env, ins.res: r} if ins.res is not None else p.env
                            work.append(Path(p.b, p.i, p.prev, env, st, p.flag))
                        done = True
                else:
                    self.step(f, p, ins)
        return rets, exits, backs

    def guard_of(self, f, h, flags):
        """the blocks without side effects from the header h up to exits of the loop that depend on a flag (a header phi that is compared with a constant); None if there are none"""
        body = f.loops[h]
        pure = lambda b: all(i.op not in ('call', 'store', 'alloca') for i in f.blocks[b])
        succ = lambda b: [x for x in self.succs(f.blocks[b][-1])]
        reach, todo = set(), [h]
        while todo:
            b = todo.pop()
            if b in reach or b not in body or not pure(b) or (b != h and b in f.loops): continue
            reach.add(b); todo += [x for x in succ(b) if x != h]
        taint, ctl = set(flags), set()          # values that depend on a flag; those that test one
        const = lambda v: v[0] != 'local'
        for _ in range(len(reach) + 2):
            for b in reach:
                for i in f.blocks[b]:
                    if i.res is None or (i.op == 'phi' and b == h): continue
                    ops = set(ops_of(i)) if i.op != 'phi' else {v[1] for v in i.a[1].values() if v[0] == 'local'}
                    if i.op == 'icmp':
                        x, y = i.a[2], i.a[3]
                        if (const(x) or const(y)) and ops & taint: ctl.add(i.res)
                        if ops & ctl: ctl.add(i.res)
                    elif ops & ctl: ctl.add(i.res)
                    elif i.op == 'cast' and ops & taint:
                        taint.add(i.res)
                        if i.a[3].k == 'int' and i.a[3].n == 1: ctl.add(i.res)
                    elif i.op == 'phi' and any(set(ops_of(f.blocks[q][-1])) & ctl for q in i.a[1] if q in reach): ctl.add(i.res)
        X = {b for b in reach if f.blocks[b][-1].op == 'cbr' and set(ops_of(f.blocks[b][-1])) & ctl and any(x not in body for x in succ(b))}
        if not X: return None
        G = set(X)
        while True:
            n = {b for b in reach if b not in G and any(x in G and x != h for x in succ(b))}
            if not n: return G | {h}
            G |= n
    def succs(self, i):
        return [i.a[0]] if i.op == 'br' else list(i.a[1:3]) if i.op == 'cbr' else [lb for cv, lb in i.a[3]] + [i.a[2]] if i.op == 'switch' else []
    def rotate(self, f, h, G, backs, exits):
        """back edges: follow the tests at the top of the loop; paths that leave the loop there are exits, of the others their outcome is known"""
        if not G: return backs
        out = []
        for q in backs:
            r, e, b = self.explore(f, [Path(h, 0, q.prev, q.env, q.st.copy())], h, G)
            exits += e
            for n in b: out.append(Path(h, 0, q.prev, q.env, n.st))
        return out
    def counter_branch(self, f, h, b):
        """does the branch that ends block b depend only on a counter of the loop at h (never on a call)?"""
        key = ('cb', f, h, b)
        if key in self.qcache: return self.qcache[key]
        body = f.loops[h]; defs = {}
        for x in body:
            for ins in f.blocks[x]:
                if ins.res is not None: defs[ins.res] = (x, ins)
        last = f.blocks[b][-1]
        todo, seen, hasphi, ok = ops_of(last), set(), False, True
        while todo:
            n = todo.pop()
            if n in seen or n not in defs: continue
            seen.add(n); x, ins = defs[n]
            if ins.op == 'call': ok = False; break
            if ins.op == 'phi':
                if x == h: hasphi = True
                todo += [v[1] for pb, v in ins.a[1].items() if pb in body and v[0] == 'local']
            else: todo += ops_of(ins)
        self.qcache[key] = ok and hasphi
        return ok and hasphi
    def tick(self):
        if self.deadline and time.time() > self.deadline: raise Unsupported('time limit for this function')

    def step(self, f, p, ins):
        op, a, env = ins.op, ins.a, p.env
        if op == 'bin':
            o, flags, ty, x, y = a
            vx, vy = self.val(f, env, ty, x), self.val(f, env, ty, y)
            if isinstance(vx, UV) or isinstance(vy, UV): raise Unsupported('arithmetic on an undefined value: ' + ins.text)
            if isinstance(vx, PV): raise Unsupported('pointer arithmetic: ' + ins.text)
            r = binop(o, vx, vy, ty.n, lambda q, w: self.ub(p.st, q, w + ': ' + ins.text), 'nsw' in flags)
        elif op == 'icmp':
            pred, ty, x, y = a
            vx, vy = self.val(f, env, ty, x), self.val(f, env, ty, y)
            if isinstance(vx, UV) or isinstance(vy, UV): raise Unsupported('comparison of an undefined value')
            if ty.k == 'ptr':
                if pred in ('eq', 'ne'):
                    q = peq(vx, vy); r = boolIV(q if pred == 'eq' else Not(q))
                else:
                    self.ub(p.st, eq(vx.obj, vy.obj), 'pointers compared belong to one object')
                    d = IV(65, vx.offset(), -2**63, 2**63-1); e = IV(65, vy.offset(), -2**63, 2**63-1)
                    r = icmp('s' + pred[1:], d, e)
            else: r = icmp(pred, vx, vy)
        elif op == 'cast':
            o, ty, x, to = a
            v = self.val(f, env, ty, x)
            if isinstance(v, UV) or o in ('bitcast', 'freeze'): r = v
            elif o in ('ptrtoint', 'inttoptr'): 
                if o == 'ptrtoint': r = IV(64, fresh('addr'), 0, 2**64-1); p.st.assume(rangefact(r)); p.st.g.setdefault('p2i', {}); p.st.g['p2i'] = {**p.st.g['p2i'], r.e.get_id(): (r.e, v)}
                else: raise Unsupported('inttoptr')
            else: r = cast(o, v, ty.n, to.n)
        elif op == 'load':
            r = self.load(p.st, self.val(f, env, ir.PTR, a[1]), a[0])
        elif op == 'store':
            self.store(p.st, self.val(f, env, ir.PTR, a[2]), a[0], self.val(f, env, a[0], a[1])); return
        elif op == 'gep':
            bt, base, idx = a
            r = self.gep(f.module, bt, self.val(f, env, ir.PTR, base), [(t, self.val(f, env, t, v)) for t, v in idx])
        elif op == 'alloca':
            r = self.new_cell(p.st)
            p.st.g[('alloca', r.obj)] = ir.sizeof(a[0], f.module)
        else: raise Unsupported('instruction: ' + ins.text)
        p.env = {**p.env, ins.res: r}

    def ub(self, st, q, what):
        if q is True: return
        if self.layer.mem: self.prove(st, q, 'no undefined behaviour: ' + what)
        st.assume(q)

    # ---------- calls
    def do_call(self, f, p, ins):
        rt, callee, args = ins.a
        av = [self.val(f, p.env, t, v) if t.k != 'metadata' else None for t, v in args]
        if callee[0] == 'global':
            name = callee[1]
            if name.startswith('llvm.lifetime') or name.startswith('llvm.dbg') or name == 'llvm.assume': return [(p.st, UNDEF)]
            fid = self.prog.resolve(name, f.module)
        else:
            fp = self.val(f, p.env, ir.PTR, callee)
            if not isc(fp.obj): return self.layer.indirect(self, p.st, fp, av, ins, self.ctx)
            fid = fp.obj
        return self.call_id(fid, av, p.st, ins, f, p)
    def call_id(self, fid, av, st, ins=None, f=None, p=None):
        tgt = self.prog.byid.get(fid)
        if isinstance(tgt, ir.Fn):
            con = self.layer.contracts.get(tgt.name)
            if con is not None and self.prog.fn(con.fn) is tgt and (not con.only_if_recursive or self.prog.recursive(tgt)):
                return self.apply(con, av, st)
            h = self.layer.libc.get(tgt.name)
            if h is not None:
                self.used_libc.add(tgt.name)
                return h(self, st, av, ins)
            self.inlined.add(tgt.name)
            return self.run_fn(tgt, av, st)
        name = tgt if isinstance(tgt, str) else None
        h = self.layer.libc.get(name)
        if h is None and name and name.startswith('llvm.memcpy'): h = self.layer.libc.get('memcpy')
        if h is None and name and name.startswith('llvm.memset'): h = self.layer.libc.get('memset')
        if h is None: raise Unsupported(f'call of {name or fid}')
        self.used_libc.add(name)
        return h(self, st, av, ins)
    def apply(self, con, args, st):
        if not getattr(con, 'elsewhere', False): self.used_contracts.add(con.fn)      # elsewhere: the proof is a root of the same property in another layer
        args = list(args)
        if hasattr(con, 'apply'): return con.apply(self, args, st)
        old = st.copy()
        c = Ctx(self, con, args, old)
        for k, v in enumerate(args):
            if isinstance(v, PV) and k not in con.out and not self.is_cell(v):
                o = v.offset()
                if not (isc(o) and o == 0): self.prove(st, Or(eq(v.obj, 0), eq(o, 0)), f'call {con.fn}: argument {k} points to the start of an object')
        for nm, q in con.requires(c):
            self.prove(st, q, f'call {con.fn}: requires {nm}'); st.assume(q)
        con.havoc(c, st)
        f = self.prog.fn(con.fn); rt = f.ret
        if rt.k == 'int':
            c.ret = freshint(rt.n, 'r_' + con.fn)
            if c.ret.b is None: st.assume(rangefact(c.ret))
        elif rt.k == 'ptr':
            c.ret = PV(fresh('r_' + con.fn)); st.assume(c.ret.obj >= 0)
        else: c.ret = UNDEF
        c.new = st
        for k, t in con.out.items():
            v = st.loc(args[k], t)
            if isinstance(v, IV): st.assume(rangefact(v))
        for nm, q in con.ensures(c): st.assume(q)
        return [(st, c.ret)]

    # ---------- loops
    def handle_loop(self, f, h, p):
        mark = len(self.obls); cid = self.cellid
        try:
            return self.unroll(f, h, Path(p.b, 0, p.prev, p.env, p.st.copy(), p.flag))
        except NeedInvariant:
            del self.obls[mark:]
        return self.invariant(f, h, p)
    def unroll(self, f, h, p):
        cur = [p]; rets, exits = [], []
        for k in range(80):
            for q in cur: q.flag = False
            r, e, b = self.explore(f, cur, h)
            rets += r; exits += e
            for q in b:
                if not q.flag: raise NeedInvariant()
            if not b: return rets, exits
            cur = b
        raise NeedInvariant()
    def phi_vals(self, f, h, env, prev):
        out = {}
        for ins in f.blocks[h]:
            if ins.op != 'phi': break
            out[ins.res] = (ins.a[0], self.val(f, env, ins.a[0], ins.a[1][prev]))
        return out
    def at_header(self, f, h, env, phis, st):
        """path positioned after the phis of h with the given phi values"""
        i = 0
        while f.blocks[h][i].op == 'phi': i += 1
        q = Path(h, i, None, {**env, **phis}, st); return q
    def generic(self, v, nm, st):
        """fresh value of the same shape"""
        if isinstance(v, IV):
            if v.n == 1: return boolIV(fresh(nm, 'Bool'))
            sg = v.lo < 0
            x = freshint(v.n, nm, signed=True) if v.n == 32 and not isinstance(v.e, bool) else freshint(v.n, nm)
            st.assume(rangefact(x)); return x
        if isinstance(v, PV):
            x = PV(fresh(nm)); st.assume(x.obj >= 0); return x
        return v
    def invariant(self, f, h, p, unstepped=(), signed=()):
        self.tick()
        entry = self.phi_vals(f, h, p.env, p.prev)
        ent_st = p.st
        # --- discover what an iteration changes, and constant steps
        def discover(G):
            mod_cells, mod_heap, mod_g = set(), set(), set(); steps = {n: None for n in entry}; cellsteps = {}
            for rnd in range(4):
                st = ent_st.copy()
                hv = {}
                for n, (ty, v) in entry.items(): hv[n] = self.generic(v, n, st)
                for k in mod_heap: st.h[k] = fresh(k, HEAP)
                for k in mod_g: st.g[k] = self.havoc_ghost(st, k)
                cv = {}
                for (o, off) in mod_cells:
                    sz, v = ent_st.cells[o][off]; x = self.generic(v, f'cell{-o}_{off}', st); st.cells[o][off] = (sz, x); cv[(o, off)] = x
                start = st.copy()
                r, e, b = self.explore(f, [self.at_header(f, h, p.env, hv, st)], h); b = self.rotate(f, h, G, b, e)
                before = (set(mod_cells), set(mod_heap), set(mod_g))
                for q in b:
                    for k in q.st.h:
                        if not q.st.h[k].eq(start.h[k]): mod_heap.add(k)
                    for k in start.g:
                        if not self.same(q.st.g.get(k), start.g[k]): mod_g.add(k)
                    for o in start.cells:
                        for off in set(start.cells[o]) | set(q.st.cells.get(o, {})):
                            x, y = start.cells[o].get(off), q.st.cells[o].get(off)
                            if x is None: start.cells[o][off] = ent_st.cells[o].setdefault(off, (y[0], UNDEF)); mod_cells.add((o, off))
                            elif y is None or x[0] != y[0]: raise Unsupported("local changes shape in loop")
                            elif not self.same(x[1], y[1]): mod_cells.add((o, off))
                    nx = self.phi_vals(f, h, q.env, q.prev)
                    for n, (ty, v) in nx.items():
                        d = self.delta(hv[n], v)
                        steps[n] = d if (steps[n] is None or self.sd(steps[n], d)) else 'x'
                    for k in cv:
                        d = self.delta(cv[k], q.st.cells[k[0]][k[1]][1])
                        cellsteps[k] = d if (k not in cellsteps or self.sd(cellsteps[k], d)) else 'x'
                if (mod_cells, mod_heap, mod_g) == before: return steps, cellsteps, mod_cells, mod_heap, mod_g
                steps = {n: None for n in entry}; cellsteps = {}
            raise Unsupported('loop frame did not stabilise')
        self.quiet += 1
        try:
            found = discover(None); steps = found[0]
            G = self.guard_of(f, h, [n for n, d in steps.items() if d == 'x'])
            if G: found = discover(G)
            steps, cellsteps, mod_cells, mod_heap, mod_g = found
        finally: self.quiet -= 1
        for n in unstepped: steps[n] = 'x'
        # --- generic header state
        def header(it, base):
            st = base.copy(); L = LoopView(); L.it = it; L.phi = {}; L.cell = {}; L.entry = ent_st
            L.phi_entry = {n: v for n, (ty, v) in entry.items()}
            st.assume(it >= 0)
            hv = {}
            for n, (ty, v) in entry.items():
                d = steps[n]
                if d is not None and d != 'x' and isinstance(v, IV):
                    if d == 0: hv[n] = v
                    else:
                        lo, hi = (0, 2**v.n - 1) if n not in signed and self.lo0(v, d) else (-2**(v.n-1), 2**(v.n-1)-1)
                        e = add(self.based(v, lo, hi), mul(it, d))
                        x = IV(v.n, e, lo, hi); hv[n] = x
                elif d is not None and d != 'x' and isinstance(v, PV):
                    hv[n] = v if d == 0 else PV(v.obj, v.off, add(v.sym, mul(it, d)), v.prov)
                else: hv[n] = self.generic(v, n, st)
            for k in mod_heap: st.h[k] = fresh(k, HEAP)
            for k in mod_g: st.g[k] = self.havoc_ghost(st, k)
            for (o, off) in mod_cells:
                sz, v = ent_st.cells[o][off]; d = cellsteps.get((o, off))
                if d is not None and d != 'x' and isinstance(v, IV) and False: x = v
                else: x = self.generic(v, f'cell{-o}_{off}', st) if not isinstance(v, UV) else v
                st.cells[o][off] = (sz, x); L.cell[(o, off)] = (v, x)
            L.phi = hv; L.st = st; L.mod_heap = mod_heap; L.mod_g = mod_g; L.mod_cells = mod_cells
            L.steps = steps; L.fname = f.name; L.header = h
            L.pre_env = p.env
            if self.ctx: st.assume(*self.ctx.con.loop_facts(self.ctx, L))
            return st, hv, L
        def view(it, hv, st, base):
            L = LoopView(); L.it = it; L.phi = hv; L.entry = ent_st; L.st = st
            L.phi_entry = {n: v for n, (ty, v) in entry.items()}
            L.cell = {(o, off): (ent_st.cells[o][off][1], st.cells[o][off][1]) for (o, off) in mod_cells}
            L.mod_heap, L.mod_g, L.mod_cells, L.steps, L.fname, L.header = mod_heap, mod_g, mod_cells, steps, f.name, h
            L.pre_env = p.env
            return L
        def candidates(L):
            c = self.ctx; out = []
            for nm, q in (c.con.hints(c, L) if c else []): out.append((nm, q))
            fl = c.con.folds(c, L) if c else []
            vals = []
            for n, v in L.phi.items():
                if steps[n] in (None, 'x') and isinstance(v, IV) and v.b is None and isinstance(L.phi_entry[n], IV): vals.append((n, L.phi_entry[n], v))
            for k, (v0, v1) in L.cell.items():
                if isinstance(v0, IV) and isinstance(v1, IV) and v1.b is None: vals.append((f'cell{k}', v0, v1))
            for n, v0, v1 in vals:
                for fn_, F in fl: out += [(f'{n} = entry + {fn_}', eq(v1.s(), add(v0.s(), F(L.it)))), (f'{n} = entry + {fn_} (unsigned)', eq(v1.u(), add(v0.u(), F(L.it))))]
            for n, v in L.phi.items():
                if isinstance(v, IV) and steps[n] in (None, 'x') and v.b is None:
                    out.append((f'{n} unchanged', eq(v.s(), L.phi_entry[n].s())) if isinstance(L.phi_entry[n], IV) else (f'{n}?', False))
                    out.append((f'{n} >= entry', le(L.phi_entry[n].s(), v.s())) if isinstance(L.phi_entry[n], IV) else (f'{n}?', False))
                if isinstance(v, PV) and steps[n] in (None, 'x') and isinstance(L.phi_entry[n], PV):
                    out.append((f'{n} unchanged', peq(v, L.phi_entry[n])))
            # a loop that tests its bound at the end is entered with room for one more step
            for nm, q in list(out):
                if nm.endswith('within') and z3.is_expr(q) and z3.is_app(q) and q.decl().kind() == z3.Z3_OP_LE: out.append((nm + ' (strictly)', q.arg(0) < q.arg(1)))
            # ranges of stepped integers: no wrap so far
            for n, v in L.phi.items():
                if steps[n] not in (None, 'x', 0) and isinstance(v, IV): out.append((f'{n} in range', And(le(v.lo, v.e), le(v.e, v.hi))))
            return out
        # --- Houdini
        base = ent_st
        L0 = view(z3.IntVal(0), {n: v for n, (ty, v) in entry.items()}, ent_st, base)
        st0 = ent_st
        # entry view uses the same interval forms as the generic one
        ent_h = {}
        for n, (ty, v) in entry.items():
            d = steps[n]
            if d not in (None, 'x', 0) and isinstance(v, IV):
                lo, hi = (0, 2**v.n - 1) if n not in signed and self.lo0(v, d) else (-2**(v.n-1), 2**(v.n-1)-1)
                w = IV(v.n, self.based(v, lo, hi), lo, hi)
                if isc(w.e): w.lo, w.hi = lo, hi
                ent_h[n] = w
            else: ent_h[n] = v
        L0.phi = ent_h
        alive = []
        if self.ctx: ent_st.assume(*self.ctx.con.loop_facts(self.ctx, L0))
        c0 = candidates(L0)
        for idx, (nm, q) in enumerate(c0):
            if q is False: continue
            r, _ = self.check_valid(ent_st.pc, q, 3000)
            if r == 'ok': alive.append(idx)
        names = [nm for nm, _ in c0]
        while True:
            self.tick()
            it = fresh('it')
            st, hv, L = header(it, base)
            cs = candidates(L)
            if len(cs) != len(names): raise Unsupported('unstable candidate set')
            for i in alive: st.assume(cs[i][1])
            self.quiet += 1
            try: r, e, b = self.explore(f, [self.at_header(f, h, p.env, hv, st.copy())], h); b = self.rotate(f, h, G, b, e)
            finally: self.quiet -= 1
            drop = set()
            for q in b:
                nx = {n: v for n, (ty, v) in self.phi_vals(f, h, q.env, q.prev).items()}
                # keep the interval forms of stepped values
                for n in nx:
                    d = steps[n]
                    if d not in (None, 'x', 0) and isinstance(nx[n], IV) and isinstance(hv[n], IV):
                        nx[n] = IV(nx[n].n, add(hv[n].e, d), hv[n].lo, hv[n].hi)
                        if isc(nx[n].e): nx[n].lo, nx[n].hi = hv[n].lo, hv[n].hi
                Lq = view(add(it, 1), nx, q.st, base); Lq.mod_g = mod_g
                cq = candidates(Lq)
                if [n for n, _ in cq] != names: raise Unsupported('unstable candidate set')
                pc = q.st.pc
                for i in alive:
                    if i in drop: continue
                    rr, _ = self.check_valid(pc, cq[i][1], 4000)
                    if rr != 'ok':
                        if os.environ.get('VC_DEBUG'): print('   drop', f.name, h, names[i], rr)
                        drop.add(i)
            if not drop: break
            alive = [i for i in alive if i not in drop]
        if os.environ.get('VC_DEBUG'): print('   loop', f.name, h, 'steps', steps, 'mod', mod_heap, mod_g, mod_cells, 'inv', [names[i] for i in alive])
        # stepped integers must stay in range, otherwise their mathematical form is not the machine value
        wrap = [nm[:-9] for i, nm in enumerate(names) if nm.endswith(' in range') and i not in alive]
        if wrap:
            sg = [n for n in wrap if n not in signed and self.lo0(entry[n][1], steps[n])]      # a counter that is compared as a signed integer
            return self.invariant(f, h, p, tuple(unstepped) + tuple(n for n in wrap if n not in sg), tuple(signed) + tuple(sg))
        # --- final pass with obligations recorded
        it = fresh('it')
        st, hv, L = header(it, base)
        cs = candidates(L)
        for i in alive: st.assume(cs[i][1])
        r, e, b = self.explore(f, [self.at_header(f, h, p.env, hv, st)], h); self.rotate(f, h, G, b, e)
        if not self.quiet:
            for i in alive: self.obls.append(Obl(self.cur, f'loop {f.name}:{h} invariant: {names[i]}', 'ok', 0, ''))
        return r, e
    def lo0(self, v, d):
        return v.lo >= 0 and (v.n == 64 or d > 0 or v.hi >= 2**(v.n-1))
    def based(self, v, lo, hi):
        """the value of v in the interval lo..hi"""
        return v.e if lo <= v.lo and v.hi <= hi else v.u() if lo == 0 else v.s()
    def havoc_ghost(self, st, k):
        v = st.g[k]
        if isinstance(v, z3.ExprRef):
            x = fresh(str(k), v.sort() if v.sort() != z3.IntSort() else 'Int') if v.sort() != z3.BoolSort() else fresh(str(k), 'Bool')
            if k == 'nxt': st.assume(x >= v)
            return x
        return v
    def same(self, x, y):
        if x is y: return True
        if isinstance(x, IV) and isinstance(y, IV):
            return isc(x.e) and isc(y.e) and x.e == y.e or (not isc(x.e) and not isc(y.e) and x.e.eq(y.e))
        if isinstance(x, PV) and isinstance(y, PV):
            return self.sx(x.obj, y.obj) and self.sx(x.offset(), y.offset())
        if isinstance(x, z3.ExprRef) and isinstance(y, z3.ExprRef): return x.eq(y)
        return x == y if not isinstance(x, z3.ExprRef) and not isinstance(y, z3.ExprRef) else False
    def sx(self, a, b):
        return a == b if isc(a) and isc(b) else (not isc(a) and not isc(b) and a.eq(b))
    def sd(self, a, b): return a == b
    def delta(self, a, b):
        """constant difference b - a, 0 when identical, 'x' when unknown"""
        if isinstance(a, IV) and isinstance(b, IV):
            d = z3.simplify(Z(sub(b.e, a.e)))
            return d.as_long() if z3.is_int_value(d) else 'x'
        if isinstance(a, PV) and isinstance(b, PV):
            if not self.sx(a.obj, b.obj): return 'x'
            d = z3.simplify(Z(sub(b.offset(), a.offset())))
            return d.as_long() if z3.is_int_value(d) else 'x'
        if isinstance(a, UV) and isinstance(b, UV): return 0
        return 'x'
