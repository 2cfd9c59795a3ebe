"""Trusted contracts of the C library functions libiff uses (files, memory, strings).

A file f has rigid content D(f,k) for 0<=k<LEN(f), a read position FP[f]; an output file has a rigid
final content W(f,k): appending byte b at position p means W(f,p)=b (nothing is ever overwritten since no
function seeks on an output).  `fault` is set when the C library reports an I/O error although the data is
there, `oom` when an allocation fails."""
from vc import *

Dc = z3.Function('D', z3.IntSort(), z3.IntSort(), z3.IntSort())
LEN = z3.Function('LEN', z3.IntSort(), z3.IntSort())
Wc = z3.Function('W', z3.IntSort(), z3.IntSort(), z3.IntSort())
SZ = z3.Function('SZ', z3.IntSort(), z3.IntSort())     # allocation size of an object
I = z3.IntVal

def byte_at(st, f, p):
    e = Dc(f, p); st.assume(e >= 0, e < 256); return e
def be(st, f, p, n, fn=Dc):
    r = 0
    for i in range(n):
        r = add(r, mul(fn(Z(f), Z(add(p, i))), 256 ** (n-1-i)))
    return r

def files(st):
    st.g['FP'] = fresh('FP', ROW); st.g['fault'] = fresh('fault', 'Bool')
def fp(st, f): return z3.Select(st.g['FP'], Z(f))
def setfp(st, f, v): st.g['FP'] = z3.Store(st.g['FP'], Z(f), Z(v))

def noop(eng, st, a, ins): return [(st, UNDEF)]
def noop_int(eng, st, a, ins):
    return [(st, freshint(32, 'ignored', signed=True))]

def feas(eng, st, *q):
    """state extended with q, or None when that is impossible"""
    q = [x for x in q if x is not True]
    if any(x is False for x in q): return None
    if q and not eng.feasible(st.pc, z3.And(*q) if len(q) > 1 else q[0]): return None
    n = st.copy(); n.assume(*q); return n

def h_fgetc(eng, st, a, ins):
    f = Z(a[0].obj); p = fp(st, f); out = []
    s1 = feas(eng, st, p < LEN(f))
    if s1:
        b = byte_at(s1, f, p); setfp(s1, f, p + 1); out.append((s1, IV(32, b, 0, 255)))
        s3 = st.copy(); s3.assume(p < LEN(f)); s3.g['fault'] = z3.BoolVal(True); s3.g['FP'] = z3.Store(s3.g['FP'], f, fresh('fp')); out.append((s3, IV(32, -1)))
    s2 = feas(eng, st, p >= LEN(f))
    if s2: out.append((s2, IV(32, -1)))
    return out

def h_fputc(eng, st, a, ins):
    f = Z(a[1].obj); p = fp(st, f)
    s1 = st.copy(); b = cut(a[0].slices(), 0, 8); v = slice_expr(b)
    s1.assume(Wc(f, p) == Z(v)); setfp(s1, f, p + 1)
    s2 = st.copy(); s2.g['fault'] = z3.BoolVal(True); s2.g['FP'] = z3.Store(s2.g['FP'], f, fresh('fp'))
    return [(s1, IV(32, Z(v), 0, 255)), (s2, IV(32, -1))]

def total_size(a):
    n = binop('mul', a[1], a[2], 64)
    return n

def h_fread(eng, st, a, ins):
    ptr, f = a[0], Z(a[3].obj); p = fp(st, f)
    if not isc(a[1].e) or a[1].e == 0: raise Unsupported('fread with a symbolic element size')
    es, cnt = a[1].e, a[2].u()
    tot = mul(cnt, es)
    out = []
    if eng.layer.mem: eng.layer.need_write(eng, st, ptr, tot, 'fread buffer')
    s1 = feas(eng, st, le(add(p, tot), LEN(f)))
    if s1:
        put_bytes(eng, s1, ptr, tot, f, p)
        setfp(s1, f, add(p, tot)); out.append((s1, IV(64, cnt, *a[2].urange())))
    # short read: end of file, or an error
    for why in ('eof', 'fault'):
        q = lt(LEN(f), add(p, tot)) if why == 'eof' else lt(0, tot)
        s2 = feas(eng, st, q)
        if not s2: continue
        k = fresh('short'); s2.assume(k >= 0, k < Z(cnt))
        clobber(eng, s2, ptr, tot)
        if why == 'fault': s2.g['fault'] = z3.BoolVal(True)
        s2.g['FP'] = z3.Store(s2.g['FP'], f, fresh('fp'))
        out.append((s2, IV(64, k, 0, 2**64-1)))
    return out

def put_bytes(eng, st, ptr, tot, f, p):
    if eng.is_cell(ptr):
        if not isc(tot) or tot > 64:
            size = st.g.get(('alloca', ptr.obj))
            if size is None or not isc(ptr.offset()): raise Unsupported('symbolic read into a local')
            eng.prove(st, le(tot, size - ptr.off), 'bytes read into a local lie within it')
            clobber(eng, st, ptr, None); return       # what the bytes are is not needed so far
        n = tot; sl = []
        for i in range(n): sl.append((8*eng.bp(i, n), 8, byte_at(st, f, p + i), 0, 8))
        eng.store(st, ptr, ir.INT(8*n), from_slices(8*n, sl), check=False) if n in (1, 2, 4, 8) else [eng.store(st, PV(ptr.obj, ptr.off+i), ir.INT(8), from_slices(8, [(0, 8, byte_at(st, f, p+i), 0, 8)]), check=False) for i in range(n)]
        return
    if isc(tot) and tot in (2, 4, 8):    # an integer in the heap
        n = tot; sl = [(8*eng.bp(i, n), 8, byte_at(st, f, p + i), 0, 8) for i in range(n)]
        eng.store(st, ptr, ir.INT(8*n), from_slices(8*n, sl), check=False)
        if eng.layer.mem: eng.layer.wrote_int(eng, st, ptr, n)
        return
    row = fresh('row', ROW); old = z3.Select(st.h['M8'], Z(ptr.obj)); i = z3.Int('i!')
    off = Z(ptr.offset())
    st.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < Z(tot)), z3.Select(row, off + i) == Dc(f, p + i)), patterns=[Dc(f, p + i)] if isc(ptr.offset()) and ptr.offset() == 0 else []))
    st.assume(z3.ForAll([i], z3.Implies(z3.And(i >= off, i < off + Z(tot)), z3.Select(row, i) == Dc(f, p + i - off)), patterns=[z3.Select(row, i)]))
    st.assume(z3.ForAll([i], z3.Implies(z3.Or(i < off, i >= off + Z(tot)), z3.Select(row, i) == z3.Select(old, i)), patterns=[z3.Select(row, i)]))
    st.h['M8'] = z3.Store(st.h['M8'], Z(ptr.obj), row)
    if eng.layer.mem: eng.layer.wrote_bytes(eng, st, ptr, tot)

def clobber(eng, st, ptr, tot):
    if eng.is_cell(ptr):
        c = st.cells[ptr.obj]
        for k in list(c):
            if not isc(tot): c[k] = (c[k][0], UNDEF)
            elif ptr.off <= k < ptr.off + tot: del c[k]
        return
    if isc(tot) and tot in (2, 4, 8): st.put(HK[tot], ptr.obj, ptr.offset(), fresh('part')); return
    row = fresh('row', ROW)
    st.h['M8'] = z3.Store(st.h['M8'], Z(ptr.obj), row)

def h_fwrite(eng, st, a, ins):
    ptr, f = a[0], Z(a[3].obj); p = fp(st, f)
    if not isc(a[1].e) or a[1].e == 0: raise Unsupported('fwrite with a symbolic element size')
    cnt = a[2].u(); tot = mul(cnt, a[1].e)
    if eng.layer.mem: eng.layer.need_read(eng, st, ptr, tot, 'fwrite buffer')
    s1 = st.copy()
    if eng.is_cell(ptr):
        if not isc(tot):
            size = st.g.get(('alloca', ptr.obj))
            if size is None or not isc(ptr.offset()) or size - ptr.off > 256: raise Unsupported('symbolic write of a local')
            eng.prove(st, le(tot, size - ptr.off), 'bytes written from a local lie within it')
            for i in range(size - ptr.off):
                b = eng.load(s1, PV(ptr.obj, ptr.off + i), ir.INT(8), check=False)
                if isinstance(b, UV): raise Unsupported('uninitialised local written')
                s1.assume(Imp(lt(i, tot), Wc(f, p + i) == Z(b.u())))
        else:
          for i in range(tot):
            b = eng.load(s1, PV(ptr.obj, ptr.off + i), ir.INT(8), check=False)
            if isinstance(b, UV): raise Unsupported('uninitialised local written')
            s1.assume(Wc(f, p + i) == Z(b.u()))
    elif isc(tot) and tot <= 8:
        for i in range(tot):
            b = s1.u8(ptr.obj, add(ptr.offset(), i)); s1.assume(Wc(f, p + i) == b)
        if isc(tot) and tot in (2, 4, 8): raise Unsupported('integer in the heap written directly')
    else:
        const_bytes(eng, s1, ptr, tot)
        i = z3.Int('i!'); row = z3.Select(s1.h['M8'], Z(ptr.obj)); off = Z(ptr.offset())
        s1.assume(z3.ForAll([i], z3.Implies(z3.And(i >= p, i < p + Z(tot)), Wc(f, i) == z3.Select(row, off + i - p)), patterns=[Wc(f, i)]))
    setfp(s1, f, add(p, tot))
    out = [(s1, IV(64, cnt, *a[2].urange()))]
    s2 = feas(eng, st, lt(0, tot))
    if s2:
        k = fresh('short'); s2.assume(k >= 0, k < Z(cnt)); s2.g['fault'] = z3.BoolVal(True)
        s2.g['FP'] = z3.Store(s2.g['FP'], f, fresh('fp')); out.append((s2, IV(64, k, 0, 2**64-1)))
    return out

def const_bytes(eng, st, ptr, tot):
    """the contents of a constant array of bytes, which nothing can change"""
    if not (isc(ptr.obj) and ptr.obj in eng.prog.byid): return
    g = eng.prog.byid[ptr.obj]
    if not (isinstance(g, tuple) and g[3] is not None and g[4]): raise Unsupported('bytes of a variable global')
    m, ty, init = g[0], g[2], g[3]; n = ir.sizeof(ty, m); row = z3.Select(st.h['M8'], Z(ptr.obj)); i = z3.Int('i!')
    eng.prove(st, And(le(0, ptr.offset()), le(add(ptr.offset(), tot), n)), 'bytes written from a constant lie within it')
    if init[0] == 'zero': st.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.Select(row, i) == 0), patterns=[z3.Select(row, i)])); return
    for k in range(min(n, 256)):
        v = eng.global_init(m, ty, init, k, ir.INT(8))
        if v is not None: st.assume(z3.Select(row, k) == Z(v.u()))
def alloc(eng, st, size, zero=False):
    o = st.g['nxt']; st.g['nxt'] = o + 1
    st.assume(SZ(o) == Z(size))
    if zero:
        for hp in ('PO', 'M8', 'M16', 'M32', 'M64'): st.h[hp] = z3.Store(st.h[hp], o, z3.K(z3.IntSort(), I(0)))
    if hasattr(eng.layer, 'on_alloc'): eng.layer.on_alloc(eng, st, o, size)
    return PV(o)

def h_malloc(eng, st, a, ins, size=None, zero=False):
    size = a[0].u() if size is None else size
    s2 = st.copy()
    p = alloc(eng, st, size, zero)
    if 'oom' in s2.g: s2.g['oom'] = z3.BoolVal(True)
    return [(st, p), (s2, PV(0))]
def h_calloc(eng, st, a, ins):
    return h_malloc(eng, st, a, ins, binop('mul', a[0], a[1], 64).u(), True)
def h_realloc(eng, st, a, ins):
    """assumption (known finding F5): growing an array does not fail; realloc(p,0) follows glibc"""
    old = a[0]; size = a[1].u(); out = []
    s0 = feas(eng, st, Not(eq(old.obj, 0)), eq(size, 0))
    if s0:
        eng.layer.on_free(eng, s0, old) if hasattr(eng.layer, 'on_free') else None
        out.append((s0, PV(0)))
    s1 = feas(eng, st, Or(eq(old.obj, 0), lt(0, size)))
    if s1:
        p = alloc(eng, s1, size); o = p.obj
        for hp in ('PO', 'M8', 'M16', 'M32', 'M64'):
            s1.h[hp] = z3.Store(s1.h[hp], o, z3.Select(s1.h[hp], Z(old.obj)))
        if hasattr(eng.layer, 'on_realloc'): eng.layer.on_realloc(eng, s1, old, p, size)
        out.append((s1, p))
    return out
def h_free(eng, st, a, ins):
    if hasattr(eng.layer, 'on_free'): eng.layer.on_free(eng, st, a[0])
    return [(st, UNDEF)]

def h_memcmp(eng, st, a, ins):
    n = Z(a[2].u()); r = freshint(32, 'memcmp', signed=True); i = z3.Int('i!')
    st.assume(rangefact(r))
    x, y = a[0], a[1]
    if eng.is_cell(x) or eng.is_cell(y): raise Unsupported('memcmp of locals')
    xr, yr = z3.Select(st.h['M8'], Z(x.obj)), z3.Select(st.h['M8'], Z(y.obj)); xo, yo = Z(x.offset()), Z(y.offset())
    if eng.layer.mem:
        eng.layer.need_read(eng, st, x, n, 'memcmp'); eng.layer.need_read(eng, st, y, n, 'memcmp')
    at = lambda row, o: z3.Select(row, i if z3.is_int_value(o) and o.as_long() == 0 else o + i)
    body = at(xr, xo) == at(yr, yo)
    st.assume(z3.Implies(r.e == 0, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), body), patterns=[at(xr, xo), at(yr, yo)])))
    w = fresh('diff')
    st.assume(z3.Implies(r.e != 0, z3.And(w >= 0, w < n, z3.Select(xr, xo + w) != z3.Select(yr, yo + w))))
    return [(st, r)]

def leaves(ty, m, off=0):
    if ty.k in ('int', 'ptr'): yield off, ty
    elif ty.k == 'array':
        n = ir.sizeof(ty.elems, m)
        for k in range(ir.sizeof(ty, m) // n): yield from leaves(ty.elems, m, off + k * n)
    else:
        for o, t in ir.offsets(ty, m): yield from leaves(t, m, off + o)
def h_memcpy(eng, st, a, ins):
    d, s = a[0], a[1]; n = a[2].u()
    if eng.is_cell(d) or eng.is_cell(s):
        if not isc(n): raise Unsupported('memcpy of symbolic size with a local')
        if eng.is_cell(d) and eng.is_cell(s):
            src = dict(st.cells[s.obj])
            for k, (sz, v) in src.items():
                if s.off <= k < s.off + n: st.cells[d.obj][k - s.off + d.off] = (sz, v)
            return [(st, d)]
        if eng.is_cell(d):
            if isc(s.obj) and s.obj in eng.prog.byid:
                gl = eng.prog.byid[s.obj]
                if isinstance(gl, tuple) and gl[3] is not None:
                    for o, t in leaves(gl[2], gl[0]):
                        if s.off <= o < s.off + n: eng.store(st, PV(d.obj, d.off + o - s.off), t, eng.load(st, PV(s.obj, o), t, check=False), check=False)
                    return [(st, d)]
                for i in range(n): eng.store(st, PV(d.obj, d.off+i), ir.INT(8), eng.load(st, PV(s.obj, s.off+i), ir.INT(8), check=False), check=False)
                return [(st, d)]
        raise Unsupported('memcpy between local and heap')
    if eng.layer.mem:
        eng.layer.need_read(eng, st, s, n, 'memcpy source'); eng.layer.need_write(eng, st, d, n, 'memcpy destination')
    for hp in eng.layer.memcpy_heaps:
        row = fresh('row', ROW); old = z3.Select(st.h[hp], Z(d.obj)); src = z3.Select(st.h[hp], Z(s.obj)); i = z3.Int('i!')
        do, so = Z(d.offset()), Z(s.offset())
        st.assume(z3.ForAll([i], z3.Select(row, i) == z3.If(z3.And(i >= do, i < do + Z(n)), z3.Select(src, so + i - do), z3.Select(old, i)), patterns=[z3.Select(row, i)]))
        st.h[hp] = z3.Store(st.h[hp], Z(d.obj), row)
    if eng.layer.mem: eng.layer.wrote_bytes(eng, st, d, n)
    return [(st, d)]

def h_memset(eng, st, a, ins):
    d, v, n = a[0], a[1].u(), a[2].u()
    if eng.is_cell(d):
        if not (isc(n) and isc(v)) or n > 4096: raise Unsupported('memset of a local')
        for i in range(n): eng.store(st, PV(d.obj, d.off + i), ir.INT(8), IV(8, v % 256), check=False)
        return [(st, d)]
    if eng.layer.mem: eng.layer.need_write(eng, st, d, n, 'memset destination')
    if not (isc(v) and v % 256 == 0): raise Unsupported('memset of the heap with another value than zero')
    i = z3.Int('i!'); do = Z(d.offset())
    for hp in ('PO', 'M8', 'M16', 'M32', 'M64'):
        row = fresh('row', ROW); old = z3.Select(st.h[hp], Z(d.obj))
        st.assume(z3.ForAll([i], z3.Select(row, i) == z3.If(z3.And(i >= do, i < do + Z(n)), 0, z3.Select(old, i)), patterns=[z3.Select(row, i)])); st.h[hp] = z3.Store(st.h[hp], Z(d.obj), row)
    if eng.layer.mem: eng.layer.wrote_zero(eng, st, d, n)
    return [(st, d)]
STRLEN = z3.Function('STRLEN', z3.IntSort(), z3.IntSort())
def h_strlen(eng, st, a, ins):
    e = STRLEN(Z(a[0].obj)); st.assume(e >= 0, e < 2**31 - 16)
    return [(st, IV(64, e, 0, 2**31 - 17))]

def h_strdup(eng, st, a, ins):
    n = STRLEN(Z(a[0].obj)); st.assume(n >= 0, n < 2**31 - 16); out = []
    for s, p in h_malloc(eng, st, [], ins, size=n + 1):
        if not (isc(p.obj) and p.obj == 0): s, p = h_memcpy(eng, s, [p, a[0], IV(64, n + 1, 1, 2**31 - 15)], ins)[0]
        elif eng.ctx and eng.ctx.con.fn in getattr(eng.layer, 'no_oom', ()): continue
        out.append((s, p))
    return out
def cstring(eng, pv):
    """bytes of a constant C string, or None"""
    if isinstance(pv, PV) and isc(pv.obj) and pv.obj in eng.prog.byid:
        g = eng.prog.byid[pv.obj]
        if isinstance(g, tuple) and g[3] is not None:
            if g[3][0] == 'bytes': return g[3][1][pv.offset():].split(b'\0')[0]
            if g[3][0] == 'zero': return b''
    return None

BASE = {'fgetc': h_fgetc, 'getc': h_fgetc, 'fputc': h_fputc, 'putc': h_fputc, 'fread': h_fread, 'fwrite': h_fwrite,
        'malloc': h_malloc, 'calloc': h_calloc, 'realloc': h_realloc, 'free': h_free, 'memcmp': h_memcmp,
        'memcpy': h_memcpy, 'memset': h_memset, 'strdup': h_strdup, 'memmove': h_memcpy, 'strlen': h_strlen,
        'IFF_error': noop, 'IFF_errorId': noop, 'IFF_readError': noop, 'IFF_writeError': noop,
        'printf': noop_int, 'fprintf': noop_int, 'puts': noop_int, 'putchar': noop_int}

def formats(eng, st, fmt, args):
    """the arguments are those the (constant) format string asks for"""
    s = cstring(eng, fmt)
    if s is None: eng.prove(st, False, 'the format string of a message is constant'); return
    t = s.decode('latin1'); k = 0; want = []
    import re
    for m in re.finditer(r'%([-+ #0]*)(\*|\d*)(?:\.(\*|\d*))?(hh|h|ll|l|z|j|t|L)?(.)', t, re.S):
        fl, w, pr, ln, cv = m.groups()
        if cv == '%': continue
        want += [32] * ((w == '*') + (pr == '*'))
        want.append('ptr' if cv in 'sp' else 64 if cv in 'diuxXo' and ln in ('l', 'll', 'z', 'j', 't') else 32 if cv in 'diuxXoc' and not ln or ln in ('h', 'hh') else None)
    have = ['ptr' if isinstance(a, PV) else a.n if isinstance(a, IV) else None for a in args]
    eng.prove(st, None not in want and have[:len(want)] == want, 'the arguments of a message are those its format string asks for')
def diag(eng, st, a, ins): formats(eng, st, a[0], a[1:]); return noop(eng, st, a, ins)
