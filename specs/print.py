"""C20: printing.  The ghost TX is the text printed to the standard output so far; PUT(t,c) is t followed by character c.
PCH(t,o,l): t followed by chunk o printed at level l; BD: its contents; KP / QP: its first k members / shared properties;
TB / HX: the first k bytes as characters / in hexadecimal; IND(t,n): n times two spaces; DEC(t,v): v in decimal; ID4(t,v): the four characters of an ID."""
from tree import *

Int = z3.IntSort(); Txt = z3.DeclareSort('Text')
def fun(n, *s): return z3.Function(n, *s)
PUT = fun('PUT', Txt, Int, Txt); IND = fun('IND', Txt, Int, Txt); DEC = fun('DEC', Txt, Int, Txt); HEX = fun('HEX', Txt, Int, Txt); ID4 = fun('ID4', Txt, Int, Txt)
PCH = fun('PCH', Txt, Int, Int, Txt); BD = fun('BD', Txt, Int, Int, Txt); KP = fun('KP', Txt, Int, Int, Int, Txt); QP = fun('QP', Txt, Int, Int, Int, Txt); TB = fun('TB', Txt, Int, Int, Txt); HX = fun('HX', Txt, Int, Int, Int, Txt)
MEM = fun('MEMS', Txt, Int, Int, Txt)       # the members in brackets
def lit(t, s):
    for b in (s.encode() if isinstance(s, str) else s): t = PUT(t, I(b))
    return t
def hd(x): return z3.If(x < 10, 48 + x, 87 + x)
def hex2(t, v): return PUT(PUT(t, hd(v / 16)), hd(v % 16))
def deeper(l): return (l + 1) % 2**32
def id4_def(t, v): return ID4(t, v) == PUT(PUT(PUT(PUT(t, v / 2**24 % 256), v / 2**16 % 256), v / 2**8 % 256), v % 256)
def type_line(T, t, o, l): return lit(ID4(lit(lit(IND(t, l), 'formType' if False else ''), ''), T.gt(o)), '')
def gtype(T, t, o, l, name): return lit(ID4(lit(IND(t, l), name + " = '"), T.gt(o)), "';\n")
def mem_text(T, t, o, l): return lit(IND(KP(lit(IND(t, l), '[\n'), o, l, T.n(o)), l), '];\n')
def body_text(T, t, o, l):
    text = lit(IND(lit(TB(IND(lit(IND(t, l), "text = '\n"), deeper(l)), o, T.size(o)), '\n'), l), "';\n")
    raw = lit(IND(lit(HX(IND(lit(IND(t, l), 'bytes = \n'), deeper(l)), o, l, T.size(o)), '\n'), l), ';\n')
    props = lit(IND(QP(lit(IND(gtype(T, t, o, l, 'contentsType'), l), 'prop = [\n'), o, l, T.np(o)), l), '];\n')
    i = T.id(o)
    return z3.If(z3.Or(i == FORM, i == PROP), MEM(gtype(T, t, o, l, 'formType'), o, l), z3.If(i == CAT, MEM(gtype(T, t, o, l, 'contentsType'), o, l), z3.If(i == LIST, MEM(props, o, l), z3.If(i == TEXT, text, raw))))
def chunk_text(T, t, o, l):
    a = lit(ID4(lit(IND(t, l), "'"), T.id(o)), "' = {\n"); b = lit(DEC(lit(IND(a, deeper(l)), 'chunkSize = '), T.size(o)), ';\n')
    return lit(IND(BD(b, o, l), l), '}\n\n')

def emit(eng, st, fmt, args):
    """printf to the standard output"""
    t = st.g['TX']; k = 0; args = list(args)
    while k < len(fmt):
        c = fmt[k]; k += 1
        if c != 37: t = PUT(t, I(c)); continue
        m = ''
        while fmt[k:k+1] in (b'0', b'1', b'2', b'3', b'4', b'5', b'6', b'7', b'8', b'9', b'.', b'-', b'h', b'l'): m += chr(fmt[k]); k += 1
        f = chr(fmt[k]); k += 1
        if f == '%': t = PUT(t, I(37)); continue
        v = args.pop(0)
        if f == 'c' and not m: t = PUT(t, Z(slice_expr(cut(v.slices(), 0, 8))))
        elif f in 'di' and not m: t = DEC(t, Z(v.s()))
        elif f == 'u' and not m: t = DEC(t, Z(v.u()))
        elif f == 'x' and m in ('', '02', '2', '.2'):
            u = Z(v.u()); byte = eng.check_valid(st.pc, u < 256, 4000)[0] == 'ok'
            if m == '2': raise Unsupported('format %2x')
            if not byte: t = HEX(t, u)
            else: t = hex2(t, u) if m else z3.If(u < 16, PUT(t, hd(u)), hex2(t, u))
        elif f == 's' and not m:
            s = cstring(eng, v)
            if s is None: raise Unsupported('printing of an unknown string')
            t = lit(t, s)
        else: raise Unsupported('format %' + m + f)
    st.g['TX'] = t; x = freshint(32, 'printed', True); st.assume(rangefact(x)); return [(st, x)]
def const(eng, p):
    s = cstring(eng, p)
    if s is None: raise Unsupported('format string is not constant')
    return s
def ext(eng, st, name): return st.p(eng.prog.resolve(name, eng.callstack[-1].module), 0)
def to_stdout(eng, st, f):
    """is the stream the standard output"""
    if z3.simplify(Z(f.obj) == ext(eng, st, 'stdout')).eq(z3.BoolVal(True)): return True
    if z3.simplify(Z(f.obj) == ext(eng, st, 'stderr')).eq(z3.BoolVal(True)): return False
    raise Unsupported('output to an unknown stream')
def p_printf(eng, st, a, ins): return emit(eng, st, const(eng, a[0]), a[1:])
def p_fprintf(eng, st, a, ins): return emit(eng, st, const(eng, a[1]), a[2:]) if to_stdout(eng, st, a[0]) else noop_int(eng, st, a, ins)
def p_puts(eng, st, a, ins): return emit(eng, st, (const(eng, a[0]) + b'\n').replace(b'%', b'%%'), [])
def p_fputs(eng, st, a, ins): return emit(eng, st, const(eng, a[0]).replace(b'%', b'%%'), []) if to_stdout(eng, st, a[1]) else noop_int(eng, st, a, ins)
def p_putchar(eng, st, a, ins): return emit(eng, st, b'%c', [a[0]])
def p_fputc(eng, st, a, ins): return emit(eng, st, b'%c', [a[0]]) if to_stdout(eng, st, a[1]) else noop_int(eng, st, a, ins)
def p_vastart(eng, st, a, ins): eng.va_of[(a[0].obj, a[0].off)] = eng.va[-1]; return [(st, UNDEF)]
def p_vaend(eng, st, a, ins): return [(st, UNDEF)]
def p_vprintf(eng, st, a, ins): return emit(eng, st, const(eng, a[0]), eng.va_of[(a[1].obj, a[1].off)])
def p_vfprintf(eng, st, a, ins): return emit(eng, st, const(eng, a[1]), eng.va_of[(a[2].obj, a[2].off)]) if to_stdout(eng, st, a[0]) else noop_int(eng, st, a, ins)
def p_fwrite(eng, st, a, ins):
    if not to_stdout(eng, st, a[3]) : return noop_int(eng, st, a, ins)
    n = mul(a[1].u(), a[2].u())
    t = st.g['TX']
    if not isc(n):          # the bytes of the chunk being printed
        T, o, x = eng.layer.T, eng.ctx.o(0), z3.FreshConst(Txt, 'TX')
        st.assume(z3.Implies(z3.And(Z(a[0].obj) == T.data(o), Z(a[0].offset()) == 0), x == TB(t, o, n))); st.g['TX'] = x
        return [(st, IV(64, a[2].u(), *a[2].urange()))]
    for i in range(n): t = PUT(t, Z(eng.load(st, PV(a[0].obj, a[0].off + i, a[0].sym), ir.INT(8), check=False).u()))
    st.g['TX'] = t; return [(st, IV(64, a[2].u(), *a[2].urange()))]

class PrintLayer(PureLayer):
    name = 'print'
    def __init__(self):
        super().__init__()
        self.libc.update(printf=p_printf, fprintf=p_fprintf, puts=p_puts, fputs=p_fputs, putchar=p_putchar, fputc=p_fputc, putc=p_fputc, vprintf=p_vprintf, vfprintf=p_vfprintf, fwrite=p_fwrite)
        for n in ('llvm.va_start', 'llvm.va_start.p0'): self.libc[n] = p_vastart
        for n in ('llvm.va_end', 'llvm.va_end.p0'): self.libc[n] = p_vaend
    def init_state(self, eng):
        st = super().init_state(eng); st.g['TX'] = z3.FreshConst(Txt, 'TX'); return st

class Print(PureContract):
    modifies = ('TX',); trees = (0,); reg = 2; lev = 1; what = 'the chunk contents are printed'
    def tree_requires(s, c):
        T = s.layer.T; o = c.o(0); R = [('a well-formed tree', WF(o)), ('a chunk', o > HEAP0)]
        if s.kind is False: R.append(('a data chunk', z3.Not(isin(T.id(o), GROUPS))))
        elif s.kind: R.append(('the chunk is of the kind of this function', isin(T.id(o), s.kind)))
        return R + s.extra(c)
    def text(s, c, t): return BD(t, c.o(0), c.u(s.lev))
    def defs(s, c):
        T, o, l, t = s.layer.T, c.o(0), c.u(s.lev), c.old.g['TX']
        return [BD(t, o, l) == body_text(T, t, o, l), PCH(t, o, l) == chunk_text(T, t, o, l), MEM(t, o, l) == mem_text(T, t, o, l)]
    def ensures(s, c): return [(s.what, c.new.g['TX'] == s.text(c, c.old.g['TX']))] + s.unchanged(c)
    def loop_facts(s, c, L):
        T, o, l, t, k = s.layer.T, c.o(0), c.u(s.lev), L.entry.g['TX'], L.it; h = HX(t, o, l, k); b = T.byte(o, k)
        return [IND(t, 0) == t, IND(t, k + 1) == lit(IND(t, k), '  '), TB(t, o, 0) == t, TB(t, o, k + 1) == PUT(TB(t, o, k), b), b >= 0, b < 256,
                HX(t, o, l, 0) == t, HX(t, o, l, k + 1) == PUT(hex2(z3.If(z3.And(k > 0, k % 10 == 0), IND(lit(h, '\n'), deeper(l)), h), b), I(32)),
                KP(t, o, l, 0) == t, KP(t, o, l, k + 1) == PCH(KP(t, o, l, k), T.child(o, k), deeper(l)), QP(t, o, l, 0) == t, QP(t, o, l, k + 1) == PCH(QP(t, o, l, k), T.prop(o, k), deeper(l))]
    def hints(s, c, L):
        T, o, l, t, k = s.layer.T, c.o(0), c.u(s.lev), L.entry.g['TX'], L.it; now = L.st.g['TX']
        out = [('members within', k <= T.n(o)), ('properties within', k <= T.np(o)), ('bytes within', k <= T.size(o)), ('levels within', k <= l), ('inner levels within', k <= deeper(l))]
        if 'TX' not in L.mod_g: return out
        return out + [(f'printed so far: {w}', now == q) for w, q in (('indentation', IND(t, k)), ('characters', TB(t, o, k)), ('bytes', HX(t, o, l, k)), ('members', KP(t, o, l, k)), ('shared properties', QP(t, o, l, k)))]
class PrintId(PureContract):
    fn = 'IFF_printId'; modifies = ('TX',)
    def defs(s, c): return [id4_def(c.old.g['TX'], c.u(0))]
    def ensures(s, c): return [('the four characters are printed', c.new.g['TX'] == ID4(c.old.g['TX'], c.u(0)))] + s.unchanged(c)
class PrintSub(Print):
    fn = 'IFF_printGroupSubChunks'; kind = GROUPS; what = 'all members are printed in brackets'
    def text(s, c, t): return MEM(t, c.o(0), c.u(1))
class PrintChunk(Print):
    fn = 'IFF_printChunk'; reg = 3; what = 'the chunk is printed'
    def text(s, c, t): return PCH(t, c.o(0), c.u(1))
    def defs(s, c):
        T, o, l = s.layer.T, c.o(0), c.u(1); return super().defs(c)
class PrintTop(PrintChunk): fn = 'IFF_print'; reg = 2
def print_layer():
    L = PrintLayer()
    add = lambda n, **kw: L.add(type(n, (Print,), dict(fn='IFF_print' + n, **kw)))
    L.add(PrintId); L.add(PrintSub)
    add('RawChunk', kind=False); add('Form', kind=(FORM,  PROP)); add('CAT', kind=(CAT,)); add('Prop', kind=(PROP,)); add('List', kind=(LIST,))
    L.add(PrintChunk); L.add(nullable_registry(PrintTop))
    return L
