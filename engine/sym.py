"""Symbolic values: mathematical integers with intervals and bit slices, and (object, offset) pointers."""
import z3

def isc(x): return isinstance(x, (int, bool))
def Z(x):
    if isinstance(x, bool): return z3.BoolVal(x)
    if isinstance(x, int): return z3.IntVal(x)
    return x
def add(a, b):
    if isc(a) and isc(b): return a + b
    if isc(a) and a == 0: return b
    if isc(b) and b == 0: return a
    return Z(a) + Z(b)
def sub(a, b):
    if isc(a) and isc(b): return a - b
    if isc(b) and b == 0: return a
    return Z(a) - Z(b)
def mul(a, b):
    if isc(a) and isc(b): return a * b
    if isc(b): a, b = b, a
    if isc(a):
        if a == 0: return 0
        if a == 1: return b
    return Z(a) * Z(b)
def fdiv(a, k):
    """floor division by a positive constant"""
    if isc(a): return a // k
    return a if k == 1 else a / z3.IntVal(k)
def fmod(a, k):
    if isc(a): return a % k
    return 0 if k == 1 else a % z3.IntVal(k)
def eq(a, b):
    if isc(a) and isc(b): return a == b
    if not isc(a) and not isc(b) and a.eq(b): return True
    return Z(a) == Z(b)
def lt(a, b): return a < b if isc(a) and isc(b) else Z(a) < Z(b)
def le(a, b): return a <= b if isc(a) and isc(b) else Z(a) <= Z(b)
def ite(c, a, b):
    if isinstance(c, bool): return a if c else b
    if isc(a) and isc(b) and a == b: return a
    if not isc(a) and not isc(b) and a.eq(b): return a
    return z3.If(c, Z(a), Z(b))
def And(*xs):
    xs = [x for y in xs for x in (y if isinstance(y, (list, tuple)) else [y])]
    if any(x is False for x in xs): return False
    xs = [x for x in xs if x is not True]
    if not xs: return True
    return xs[0] if len(xs) == 1 else z3.And(*xs)
def Or(*xs):
    xs = [x for y in xs for x in (y if isinstance(y, (list, tuple)) else [y])]
    if any(x is True for x in xs): return True
    xs = [x for x in xs if x is not False]
    if not xs: return False
    return xs[0] if len(xs) == 1 else z3.Or(*xs)
def Not(x):
    if isinstance(x, bool): return not x
    return x.arg(0) if z3.is_not(x) else z3.Not(x)
def Imp(a, b):
    if a is True: return b
    if a is False or b is True: return True
    if b is False: return Not(a)
    return z3.Implies(Z(a), Z(b))
def Iff(a, b):
    if isinstance(a, bool): return b if a else Not(b)
    if isinstance(b, bool): return a if b else Not(a)
    return Z(a) == Z(b)

_cnt = [0]
def fresh(name, sort='Int'):
    _cnt[0] += 1
    nm = f'{name}!{_cnt[0]}'
    if isinstance(sort, str): return z3.Bool(nm) if sort == 'Bool' else z3.Int(nm)
    return z3.Const(nm, sort)

ROW = z3.ArraySort(z3.IntSort(), z3.IntSort())
HEAP = z3.ArraySort(z3.IntSort(), ROW)

class IV:
    """n-bit integer; its bits are e mod 2^n and lo <= e <= hi."""
    __slots__ = ('n', 'e', 'lo', 'hi', 'sl', 'b')
    def __init__(s, n, e, lo=None, hi=None, sl=None, b=None):
        s.n, s.e, s.sl, s.b = n, e, sl, b
        if isc(e): e = s.e = int(e); lo = hi = e
        s.lo = -(1 << (n-1)) if lo is None else lo
        s.hi = (1 << n) - 1 if hi is None else hi
        if b is not None: s.lo, s.hi = max(s.lo, 0), min(s.hi, 1)
    def __repr__(s): return f'i{s.n}:{s.e}[{s.lo},{s.hi}]'
    def u(s):
        M = 1 << s.n
        if isc(s.e): return s.e % M
        if s.lo >= 0 and s.hi < M: return s.e
        if s.lo >= -M and s.hi < M: return z3.If(s.e < 0, s.e + M, s.e)
        if s.lo >= 0 and s.hi < 2*M: return z3.If(s.e >= M, s.e - M, s.e)
        return s.e % M
    def s(s):
        M = 1 << s.n; H = M >> 1
        if isc(s.e): return (s.e + H) % M - H
        if s.lo >= -H and s.hi < H: return s.e
        if s.lo >= 0 and s.hi < M: return z3.If(s.e >= H, s.e - M, s.e)
        if s.lo >= -M and s.hi < M: return z3.If(s.e >= H, s.e - M, z3.If(s.e < -H, s.e + M, s.e))
        return (s.e + H) % M - H
    def urange(s):
        M = 1 << s.n
        return (s.lo, s.hi) if s.lo >= 0 and s.hi < M else (0, M-1)
    def srange(s):
        H = 1 << (s.n-1)
        return (s.lo, s.hi) if s.lo >= -H and s.hi < H else (-H, H-1)
    def U(s):  lo, hi = s.urange(); return IV(s.n, s.u(), lo, hi, s.sl, s.b)
    def S(s):  lo, hi = s.srange(); return IV(s.n, s.s(), lo, hi, s.sl, s.b)
    def nz(s):
        """value != 0 as a formula"""
        if s.b is not None: return s.b
        if isc(s.e): return s.e % (1 << s.n) != 0
        M = 1 << s.n
        if s.lo > -M and s.hi < M: return s.e != 0
        return s.u() != 0
    def slices(s):
        if s.sl is not None: return s.sl
        if isc(s.e):
            v = s.e % (1 << s.n)
            return [] if v == 0 else [(0, s.n, v, 0, s.n)]
        return [(0, s.n, s.u(), 0, s.n)]
    def byte(s, i):
        """i-th least significant byte as an expression 0..255"""
        return slice_expr(cut(s.slices(), 8*i, 8*i+8, -8*i))

def boolIV(b, n=1):
    if isinstance(b, bool): return IV(n, int(b))
    return IV(n, z3.If(b, z3.IntVal(1), z3.IntVal(0)), 0, 1, None, b)

def cut(sl, lo, hi, shift=0):
    out = []
    for (d, w, base, src, W) in sl:
        a, z = max(d, lo), min(d+w, hi)
        if a < z: out.append((a+shift, z-a, base, src+(a-d), W))
    return out
def norm(sl):
    sl = sorted(sl, key=lambda t: t[0]); out = []
    for t in sl:
        if out:
            d, w, base, src, W = out[-1]
            same = (isc(base) and isc(t[2]) and base == t[2]) or (not isc(base) and not isc(t[2]) and base.eq(t[2]))
            if d+w == t[0] and same and src+w == t[3]:
                out[-1] = (d, w+t[1], base, src, W); continue
        out.append(t)
    return out
def slice_expr(sl):
    r = 0
    for (d, w, base, src, W) in norm(sl):
        e = fdiv(base, 1 << src)
        if src + w < W: e = fmod(e, 1 << w)
        r = add(r, mul(e, 1 << d))
    return r
def from_slices(n, sl):
    sl = norm(cut(sl, 0, n))
    # a single slice that is the whole value
    hi = sum(((1 << w) - 1) << d for (d, w, *_ ) in sl)
    return IV(n, slice_expr(sl), 0, hi, sl)

def mask_runs(m, n):
    out = []; i = 0
    while i < n:
        if m >> i & 1:
            j = i
            while j < n and m >> j & 1: j += 1
            out.append((i, j)); i = j
        else: i += 1
    return out

def bvop(op, a, b, n):
    x, y = z3.Int2BV(Z(a.u()), n), z3.Int2BV(Z(b.u()), n)
    r = {'and': x & y, 'or': x | y, 'xor': x ^ y}[op] if op in ('and', 'or', 'xor') else \
        {'shl': x << y, 'lshr': z3.LShR(x, y), 'ashr': x >> y}[op]
    return IV(n, z3.BV2Int(r, False), 0, (1 << n) - 1)

def binop(op, a, b, n, oblig=None, nsw=False):
    """oblig(cond, what) records the no-signed-overflow requirement of an nsw operation"""
    M = 1 << n; H = M >> 1
    if op in ('add', 'sub', 'mul'):
        if nsw: a, b = a.S(), b.S()
        f = {'add': add, 'sub': sub, 'mul': mul}[op]
        e = f(a.e, b.e)
        if op == 'add': lo, hi = a.lo + b.lo, a.hi + b.hi
        elif op == 'sub': lo, hi = a.lo - b.hi, a.hi - b.lo
        else:
            c = [a.lo*b.lo, a.lo*b.hi, a.hi*b.lo, a.hi*b.hi]; lo, hi = min(c), max(c)
        if nsw and (lo < -H or hi >= H):
            if oblig: oblig(And(le(-H, e), lt(e, H)), 'signed overflow')
            return IV(n, e, max(lo, -H), min(hi, H-1))
        r = IV(n, e, lo, hi)
        if not isc(e) and (lo < -(M << 3) or hi >= (M << 3)): r = r.U()
        if op == 'add' and not isc(e):   # disjoint bit fields added together
            if a.sl is not None and b.sl is not None and disjoint(a.sl, b.sl): r.sl = norm(a.sl + b.sl)
        return r
    if op == 'and':
        for x, y in ((a, b), (b, a)):
            if isc(y.e):
                m = y.e % M
                if x.b is not None and m & 1: return IV(n, x.e, 0, 1, None, x.b)
                out = []
                for lo, hi in mask_runs(m, n): out += cut(x.slices(), lo, hi)
                return from_slices(n, out)
        if a.b is not None and b.b is not None: return boolIV(And(a.b, b.b), n)
        return bvop(op, a, b, n)
    if op == 'or':
        if a.b is not None and b.b is not None: return boolIV(Or(a.b, b.b), n)
        if disjoint(a.slices(), b.slices()): return from_slices(n, a.slices() + b.slices())
        return bvop(op, a, b, n)
    if op == 'xor':
        for x, y in ((a, b), (b, a)):
            if isc(y.e) and y.e % M == M - 1 and n > 1: return IV(n, sub(-1, x.S().e), -1 - x.srange()[1], -1 - x.srange()[0])
            if isc(y.e) and y.e % M == 1 and x.b is not None: return boolIV(Not(x.b), n)
            if isc(y.e) and y.e % M == 0: return x
        if a.b is not None and b.b is not None: return boolIV(z3.Xor(Z(a.b), Z(b.b)), n)
        if isc(a.e) and isc(b.e): return IV(n, (a.e % M) ^ (b.e % M))
        return bvop(op, a, b, n)
    if op in ('shl', 'lshr', 'ashr'):
        if isc(b.e):
            k = b.e % M
            if k >= n: return IV(n, fresh('poison'), 0, M-1)
            if op == 'shl':
                return from_slices(n, [(d+k, w, x, s, W) for (d, w, x, s, W) in cut(a.slices(), 0, n-k)])
            if op == 'lshr': return from_slices(n, cut(a.slices(), k, n, -k))
            if not cut(a.slices(), n-1, n): return from_slices(n, cut(a.slices(), k, n, -k))
            lo, hi = a.srange()
            r = IV(n, fdiv(a.s(), 1 << k), lo >> k, hi >> k)
            r.sl = norm(cut(a.slices(), k, n, -k) + [(n-k, k, signfill(a, k), 0, k)])
            return r
        return bvop(op, a, b, n)
    if op in ('udiv', 'urem'):
        if isc(b.e) and b.e % M:
            k = b.e % M
            lo, hi = a.urange()
            return IV(n, fdiv(a.u(), k), lo // k, hi // k) if op == 'udiv' else IV(n, fmod(a.u(), k), 0, k-1)
        d = b.u()
        if oblig: oblig(Not(eq(d, 0)), 'division by zero')
        return IV(n, Z(a.u()) / Z(d) if op == 'udiv' else Z(a.u()) % Z(d), 0, M-1)
    if op in ('sdiv', 'srem'):
        x = a.s(); lo, hi = a.srange()
        if isc(b.e):
            k = b.s()
            if k != 0 and k != -1:
                m = abs(k)
                q = ite(le(0, x), fdiv(x, m), sub(0, fdiv(sub(0, x), m)))
                if k < 0: q = sub(0, q)
                if op == 'sdiv': return IV(n, q, -H, H-1)
                r = ite(le(0, x), fmod(x, m), sub(0, fmod(sub(0, x), m)))
                return IV(n, r, max(1-m, lo) if lo < 0 else 0, min(m-1, max(hi, 0)))
        y = Z(b.s())
        if oblig: oblig(And(y != 0, Not(And(eq(x, -H), y == -1))), 'division')
        ax, ay = z3.If(Z(x) >= 0, Z(x), -Z(x)), z3.If(y >= 0, y, -y)
        q = ax / ay; q = z3.If((Z(x) >= 0) == (y >= 0), q, -q)
        return IV(n, q if op == 'sdiv' else Z(x) - q*y, -H, H-1)
    raise NotImplementedError(op)

def signfill(a, k):
    s = a.s()
    return ite(lt(s, 0), (1 << k) - 1, 0)
def disjoint(x, y):
    occ = 0
    for (d, w, *_) in x: occ |= ((1 << w) - 1) << d
    for (d, w, *_) in y:
        if occ & (((1 << w) - 1) << d): return False
    return True

def cast(op, a, frm, to):
    if op == 'trunc':
        r = IV(to, a.e, a.lo, a.hi, None, None)
        if isc(a.e): return IV(to, a.e % (1 << to))
        if a.sl is not None: r.sl = norm(cut(a.sl, 0, to))
        if a.b is not None: r.b = a.b
        if to == 1 and a.b is None: return boolIV(eq(fmod(a.u(), 2), 1))
        M = 1 << to
        if a.sl is not None and not (a.lo >= -M//2 and a.hi < M): r = from_slices(to, r.sl)
        elif r.lo < -(M << 3) or r.hi >= (M << 3): r = r.U()
        return r
    if op == 'zext':
        if a.b is not None: return boolIV(a.b, to)
        x = a.U(); r = IV(to, x.e, x.lo, x.hi, a.sl)
        return r
    if op == 'sext':
        if frm == 1: return IV(to, ite(a.nz(), -1, 0), -1, 0)
        x = a.S(); r = IV(to, x.e, x.lo, x.hi)
        if x.lo >= 0: r.sl = a.sl
        elif not isc(x.e):
            r.sl = norm(list(a.slices()) + [(frm, to-frm, signfill(a, to-frm), 0, to-frm)])
        return r
    raise NotImplementedError(op)

def icmp(pred, a, b):
    if pred in ('eq', 'ne'):
        if a.b is not None and isc(b.e) and b.e in (0, 1): r = a.b if b.e == 1 else Not(a.b)
        elif b.b is not None and isc(a.e) and a.e in (0, 1): r = b.b if a.e == 1 else Not(b.b)
        elif a.b is not None and b.b is not None: r = Iff(a.b, b.b)
        else:
            H = 1 << (a.n-1)
            if isc(a.e) and isc(b.e): r = a.u() == b.u()
            elif (a.lo >= -H and a.hi < H and b.lo >= -H and b.hi < H) or isc(a.e) and b.lo >= -H and b.hi < H \
                 or isc(b.e) and a.lo >= -H and a.hi < H: r = eq(a.s(), b.s())
            else: r = eq(a.u(), b.u())
        return boolIV(r if pred == 'eq' else Not(r))
    sg = pred[0] == 's'
    x, y = (a.s(), b.s()) if sg else (a.u(), b.u())
    (al, ah), (bl, bh) = (a.srange(), b.srange()) if sg else (a.urange(), b.urange())
    p = pred[1:]
    if p == 'lt':
        if ah < bl: return boolIV(True)
        if al >= bh: return boolIV(False)
        return boolIV(lt(x, y))
    if p == 'le':
        if ah <= bl: return boolIV(True)
        if al > bh: return boolIV(False)
        return boolIV(le(x, y))
    if p == 'gt':
        return icmp(pred[0] + 'lt', b, a)
    return icmp(pred[0] + 'le', b, a)

class PV:
    """pointer: object id, symbolic byte offset, constant byte offset"""
    __slots__ = ('obj', 'sym', 'off', 'prov')
    def __init__(s, obj, off=0, sym=0, prov=None): s.obj, s.off, s.sym, s.prov = obj, off, sym, prov
    def __repr__(s): return f'ptr({s.obj},{s.sym}+{s.off})'
    def offset(s): return add(s.sym, s.off)
    def isnull(s):
        return eq(s.obj, 0)
def peq(a, b): return And(eq(a.obj, b.obj), Or(eq(a.obj, 0), eq(a.offset(), b.offset())))
NULL = PV(0)
class UV:
    """undef / void"""
    def __repr__(s): return 'undef'
UNDEF = UV()
