"""Parser for the textual LLVM IR that clang emits for /repo's C files.

Only the instruction subset clang -O0 + mem2reg produces for this code base is
understood; anything else is kept as an ('unsupported', text) instruction, which makes
every obligation that reaches it fail (never pass)."""
import re

class Type:
    __slots__ = ('k', 'n', 'elems', 'name')
    def __init__(self, k, n=None, elems=None, name=None):
        self.k, self.n, self.elems, self.name = k, n, elems, name
    def __repr__(self):
        return {'int': f'i{self.n}', 'ptr': 'ptr', 'void': 'void'}.get(self.k, f'{self.k}:{self.name or self.elems}')

PTR = Type('ptr'); VOID = Type('void')
def INT(n): return Type('int', n)

TOK = re.compile(r'''\s*(c"(?:[^"\\]|\\[0-9A-Fa-f]{2}|\\\\)*"|"(?:[^"])*"|%"[^"]*"|@"[^"]*"|%[-\w.$]+|@[-\w.$]+|![-\w.]*|\#\d+|\.\.\.|-?\d+(?:\.\d+(?:e[+-]?\d+)?)?|[A-Za-z_][\w.]*|[()\[\]{}<>,=*:])''')

def tokenize(s):
    out, i = [], 0
    s = s.rstrip()
    while i < len(s):
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == '' or s[i:].lstrip().startswith(';'): break
            raise ValueError('cannot tokenize: ' + s[i:i+60])
        if s[m.start(1)] == ';': break
        out.append(m.group(1)); i = m.end()
    return out

class P:
    """token cursor"""
    def __init__(self, toks): self.t, self.i = toks, 0
    def peek(self, k=0): return self.t[self.i+k] if self.i+k < len(self.t) else None
    def next(self):
        v = self.t[self.i]; self.i += 1; return v
    def accept(self, x):
        if self.peek() == x: self.i += 1; return True
        return False
    def expect(self, x):
        if self.next() != x: raise ValueError(f'expected {x} in {" ".join(self.t)} at {self.i}')

ATTRS = {'noundef','nocapture','readonly','writeonly','noalias','signext','zeroext','nonnull','returned','immarg',
         'inreg','nofree','dso_local','local_unnamed_addr','unnamed_addr','internal','private','external','global','constant',
         'tail','musttail','notail','fastcc','ccc','hidden','linkonce_odr','weak','common','nest','captures'}

def parse_type(p, structs):
    t = p.next()
    if t == 'void': r = VOID
    elif t == 'ptr': r = PTR
    elif re.fullmatch(r'i\d+', t): r = INT(int(t[1:]))
    elif t in ('float','double','x86_fp80','label','metadata','token'): r = Type(t)
    elif t.startswith('%'): r = Type('struct', name=t[1:])
    elif t == '[':
        n = int(p.next()); p.expect('x'); e = parse_type(p, structs); p.expect(']')
        r = Type('array', n=n, elems=e)
    elif t == '{':
        el = []
        while not p.accept('}'):
            el.append(parse_type(p, structs)); p.accept(',')
        r = Type('lit', elems=el)
    elif t == '<':
        while p.next() != '>': pass
        r = Type('vector')
    else: raise ValueError('type? ' + t + ' in ' + ' '.join(p.t))
    if p.peek() == '(':   # function type
        d = 0; args = []
        start = p.i
        while True:
            x = p.next()
            if x == '(': d += 1
            elif x == ')':
                d -= 1
                if d == 0: break
        r = Type('func', elems=r, name='...' in p.t[start:p.i])
    while p.accept('*'): r = PTR
    return r

def skip_attrs(p):
    while True:
        t = p.peek()
        if t in ATTRS: p.next()
        elif t in ('align',): p.next(); p.next()
        elif t in ('dereferenceable','dereferenceable_or_null','sret','byval','range','initializes','memory'):
            p.next()
            if p.peek() == '(':
                d = 0
                while True:
                    x = p.next()
                    if x == '(': d += 1
                    if x == ')':
                        d -= 1
                        if d == 0: break
        else: return

def parse_value(p, ty, mod):
    """operand forms: ('int',n) ('null',) ('undef',) ('local',name) ('global',name) ('cexpr',...) aggregates"""
    t = p.next()
    if re.fullmatch(r'-?\d+', t): return ('int', int(t))
    if t == 'true': return ('int', 1)
    if t == 'false': return ('int', 0)
    if t == 'null': return ('null',)
    if t in ('undef', 'poison'): return ('undef',)
    if t == 'zeroinitializer': return ('zero',)
    if t.startswith('%'): return ('local', t[1:])
    if t.startswith('@'): return ('global', t[1:])
    if t.startswith('c"'):
        raw = t[2:-1]; b = bytearray(); i = 0
        while i < len(raw):
            if raw[i] == '\\':
                if raw[i+1] == '\\': b.append(92); i += 2
                else: b.append(int(raw[i+1:i+3], 16)); i += 3
            else: b.append(ord(raw[i])); i += 1
        return ('bytes', bytes(b))
    if t in ('[', '{'):
        close = ']' if t == '[' else '}'
        el = []
        while not p.accept(close):
            et = parse_type(p, mod); el.append((et, parse_value(p, et, mod))); p.accept(',')
        return ('agg', el)
    if t == 'getelementptr':
        while p.peek() in ('inbounds','nuw','nusw'): p.next()
        p.expect('(')
        bt = parse_type(p, mod); p.expect(',')
        ops = []
        while True:
            et = parse_type(p, mod); ops.append((et, parse_value(p, et, mod)))
            if p.accept(')'): break
            p.expect(',')
        return ('cgep', bt, ops)
    raise ValueError('value? ' + t + ' in ' + ' '.join(p.t))

class Instr:
    __slots__ = ('op', 'res', 'a', 'text')
    def __init__(self, op, res, a, text): self.op, self.res, self.a, self.text = op, res, a, text
    def __repr__(self): return self.text

class Fn:
    def __init__(self, name, module, ret, params, internal, vararg):
        self.name, self.module, self.ret, self.params = name, module, ret, params
        self.internal, self.vararg = internal, vararg
        self.blocks = {}; self.order = []; self.entry = None
    def finish(self):
        self.preds = {b: [] for b in self.blocks}
        for b in self.blocks:
            for s in self.succ(b): self.preds[s].append(b)
        # dominators (iterative) and natural loops
        allb = self.rpo()
        dom = {b: set(allb) for b in allb}; dom[self.entry] = {self.entry}
        ch = True
        while ch:
            ch = False
            for b in allb:
                if b == self.entry: continue
                ps = [dom[q] for q in self.preds[b] if q in dom]
                nd = set.intersection(*ps) | {b} if ps else {b}
                if nd != dom[b]: dom[b] = nd; ch = True
        self.loops = {}
        for b in allb:
            for s in self.succ(b):
                if s in dom[b]:
                    body = self.loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x in body: continue
                        body.add(x); st += [q for q in self.preds[x] if q in dom]
        self.irreducible = False
        pos = {b: i for i, b in enumerate(allb)}
        for b in allb:
            for s in self.succ(b):
                if pos[s] <= pos[b] and s not in dom[b]: self.irreducible = True
    def rpo(self):
        seen, out = set(), []
        st = [(self.entry, iter(self.succ(self.entry)))]; seen.add(self.entry)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s); st.append((s, iter(self.succ(s)))); break
            else:
                out.append(b); st.pop()
        return out[::-1]
    def succ(self, b):
        t = self.blocks[b][-1]
        if t.op == 'br': return [t.a[0]]
        if t.op == 'cbr': return [t.a[1], t.a[2]]
        if t.op == 'switch': return [t.a[2]] + [x[1] for x in t.a[3]]
        return []

class Module:
    def __init__(self, name): self.name = name; self.structs = {}; self.globals = {}; self.fns = {}; self.decls = {}

BIN = {'add','sub','mul','udiv','sdiv','urem','srem','and','or','xor','shl','lshr','ashr'}
CAST = {'zext','sext','trunc','bitcast','ptrtoint','inttoptr','freeze'}

def parse_instr(text, mod):
    p = P(tokenize(text.split(', !')[0]))
    res = None
    if p.peek(1) == '=' and p.peek().startswith('%'):
        res = p.next()[1:]; p.next()
    skip_attrs(p)
    op = p.next()
    try:
        if op in BIN:
            flags = set()
            while p.peek() in ('nsw','nuw','exact','disjoint'): flags.add(p.next())
            ty = parse_type(p, mod); a = parse_value(p, ty, mod); p.expect(','); b = parse_value(p, ty, mod)
            return Instr('bin', res, (op, flags, ty, a, b), text)
        if op == 'icmp':
            if p.peek() == 'samesign': p.next()
            pred = p.next(); ty = parse_type(p, mod); a = parse_value(p, ty, mod); p.expect(','); b = parse_value(p, ty, mod)
            return Instr('icmp', res, (pred, ty, a, b), text)
        if op in CAST:
            while p.peek() in ('nneg','nuw','nsw'): p.next()
            ty = parse_type(p, mod); a = parse_value(p, ty, mod)
            to = ty
            if p.accept('to'): to = parse_type(p, mod)
            return Instr('cast', res, (op, ty, a, to), text)
        if op == 'select':
            ty = parse_type(p, mod); c = parse_value(p, ty, mod); p.expect(',')
            t1 = parse_type(p, mod); a = parse_value(p, t1, mod); p.expect(',')
            t2 = parse_type(p, mod); b = parse_value(p, t2, mod)
            return Instr('select', res, (c, t1, a, b), text)
        if op == 'phi':
            ty = parse_type(p, mod); inc = []
            while p.accept('['):
                v = parse_value(p, ty, mod); p.expect(','); inc.append((p.next()[1:].strip('"'), v)); p.expect(']'); p.accept(',')
            return Instr('phi', res, (ty, dict(inc)), text)
        if op == 'load':
            if p.peek() == 'volatile': p.next()
            ty = parse_type(p, mod); p.expect(','); pt = parse_type(p, mod); a = parse_value(p, pt, mod)
            return Instr('load', res, (ty, a), text)
        if op == 'store':
            if p.peek() == 'volatile': p.next()
            ty = parse_type(p, mod); v = parse_value(p, ty, mod); p.expect(','); pt = parse_type(p, mod); a = parse_value(p, pt, mod)
            return Instr('store', None, (ty, v, a), text)
        if op == 'alloca':
            ty = parse_type(p, mod)
            if p.peek() == ',' and p.peek(1) != 'align': return Instr('unsupported', res, (), text)
            return Instr('alloca', res, (ty,), text)
        if op == 'getelementptr':
            while p.peek() in ('inbounds','nuw','nusw'): p.next()
            bt = parse_type(p, mod); p.expect(','); pt = parse_type(p, mod); base = parse_value(p, pt, mod); idx = []
            while p.accept(','):
                it = parse_type(p, mod); idx.append((it, parse_value(p, it, mod)))
            return Instr('gep', res, (bt, base, idx), text)
        if op == 'call':
            skip_attrs(p)
            ty = parse_type(p, mod)
            rt = ty.elems if ty.k == 'func' else ty
            callee = parse_value(p, PTR, mod)
            p.expect('('); args = []
            while not p.accept(')'):
                at = parse_type(p, mod); skip_attrs(p); args.append((at, parse_value(p, at, mod))); p.accept(',')
            return Instr('call', res, (rt, callee, args), text)
        if op == 'br':
            if p.accept('label'): return Instr('br', None, (p.next()[1:].strip('"'),), text)
            parse_type(p, mod); c = parse_value(p, INT(1), mod); p.expect(','); p.expect('label'); t = p.next()[1:].strip('"')
            p.expect(','); p.expect('label'); f = p.next()[1:].strip('"')
            return Instr('cbr', None, (c, t, f), text)
        if op == 'switch':
            ty = parse_type(p, mod); v = parse_value(p, ty, mod); p.expect(','); p.expect('label'); d = p.next()[1:].strip('"')
            p.expect('['); cs = []
            while not p.accept(']'):
                parse_type(p, mod); cv = parse_value(p, ty, mod)[1]; p.expect(','); p.expect('label'); cs.append((cv, p.next()[1:].strip('"')))
            return Instr('switch', None, (ty, v, d, cs), text)
        if op == 'ret':
            ty = parse_type(p, mod)
            return Instr('ret', None, (ty, None if ty.k == 'void' else parse_value(p, ty, mod)), text)
        if op == 'unreachable': return Instr('unreachable', None, (), text)
    except (ValueError, IndexError, TypeError):
        pass
    return Instr('unsupported', res, (), text)

def parse_module(name, text):
    m = Module(name)
    lines = text.split('\n'); i = 0
    while i < len(lines):
        ln = lines[i]; i += 1
        if not ln or ln[0] in ';!': continue
        if ln.startswith('%') and ' = type ' in ln:
            nm, rest = ln.split(' = type ', 1)
            if rest.strip() == 'opaque': continue
            m.structs[nm[1:]] = parse_type(P(tokenize(rest)), m).elems
        elif ln.startswith('@'):
            nm, rest = ln.split(' = ', 1)
            p = P(tokenize(rest)); const = False; ext = False; internal = False
            while p.peek() in ATTRS:
                t = p.next(); const |= t == 'constant'; ext |= t == 'external'; internal |= t in ('internal', 'private')
            ty = parse_type(p, m)
            init = None
            if not ext and p.peek() is not None: init = parse_value(p, ty, m)
            m.globals[nm[1:].strip('"')] = (ty, init, const, internal)
        elif ln.startswith('declare'):
            mm = re.search(r'@([\w.$]+)\(', ln); m.decls[mm.group(1)] = ln
        elif ln.startswith('define'):
            p = P(tokenize(ln)); p.next(); internal = 'internal' in ln.split('@')[0].split()
            skip_attrs(p); rt = parse_type(p, m); fn = p.next()[1:]; p.expect('('); params = []; va = False
            while not p.accept(')'):
                if p.accept('...'): va = True; continue
                pt = parse_type(p, m); skip_attrs(p); params.append((p.next()[1:], pt)); p.accept(',')
            f = Fn(fn, m, rt, params, internal, va)
            cur = None
            while True:
                ln = lines[i]; i += 1
                if ln == '}': break
                s = ln.strip()
                if not s or s[0] == ';': continue
                lm = re.match(r'^("?[-\w.$]+"?):', ln)
                if lm:
                    cur = lm.group(1).strip('"'); f.blocks[cur] = []; f.order.append(cur)
                    if f.entry is None: f.entry = cur
                    continue
                if cur is None:
                    cur = '0'; f.blocks[cur] = []; f.order.append(cur); f.entry = cur
                if s.startswith('switch'):
                    while ']' not in s: s += ' ' + lines[i].strip(); i += 1
                f.blocks[cur].append(parse_instr(s, m))
            f.finish()
            m.fns[fn] = f
    return m

def sizeof(t, m):
    if t.k == 'int': return max(1, t.n // 8)
    if t.k == 'ptr': return 8
    if t.k == 'array': return t.n * sizeof(t.elems, m)
    el = m.structs[t.name] if t.k == 'struct' else t.elems
    o = 0; al = 1
    for e in el:
        a = alignof(e, m); o = (o + a - 1) // a * a + sizeof(e, m); al = max(al, a)
    return (o + al - 1) // al * al
def alignof(t, m):
    if t.k == 'int': return max(1, t.n // 8)
    if t.k == 'ptr': return 8
    if t.k == 'array': return alignof(t.elems, m)
    el = m.structs[t.name] if t.k == 'struct' else t.elems
    return max([alignof(e, m) for e in el] or [1])
def offsets(t, m):
    el = m.structs[t.name] if t.k == 'struct' else t.elems
    o = 0; out = []
    for e in el:
        a = alignof(e, m); o = (o + a - 1) // a * a; out.append((o, e)); o += sizeof(e, m)
    return out
