"""C18, C19: the command lines of the two tools (main of iffpp and of iffjoin), over an assumed contract of getopt_long/getopt and the
contracts of IFF_prettyPrint and IFF_join (proved from their code in the tool layers).  Ghosts:
  ng: number of getopt calls; OPTR(k), OARG(k): what the k-th call returned and its argument;
  ncalls: how often the tool proper was run; tret: what it returned; targ: its arguments (names, number / options, file)."""
from tools import *

OPTR = z3.Function('OPTR', Int, Int); OARG = z3.Function('OARG', Int, Int)
SEEN = z3.Function('SEEN', Int, B)           # -c among the first k options
OUTF = z3.Function('OUTF', Int, Int)         # the output file given by the first k options
HELP, VERSION, BAD = ord('h'), ord('v'), ord('?')

def getopt(longopts):
    def h(eng, st, a, ins):
        c, L = eng.ctx, eng.layer
        eng.prove(st, And(eq(a[0].s(), c.s(0)), peq(a[1], c.a[1])), 'the command line is passed on to getopt')
        s = cstring(eng, a[2])
        if s is None: raise Unsupported('option string')
        s = s.decode('latin1'); short = {}
        for i, x in enumerate(s.lstrip('+-:')):
            if x != ':': short[x] = s.lstrip('+-:')[i + 1:i + 2] == ':'
        rets = {ord(x): v for x, v in short.items()}; names = {}
        if longopts:
            for k in range(32):
                p = eng.load(st, PV(a[3].obj, a[3].off + 32 * k), ir.PTR, check=False)
                if isc(p.obj) and p.obj == 0: break
                arg, flag, val = (eng.load(st, PV(a[3].obj, a[3].off + 32 * k + o), t, check=False) for o, t in ((8, ir.INT(32)), (16, ir.PTR), (24, ir.INT(32))))
                if not (isc(flag.obj) and flag.obj == 0 and isc(val.u()) and isc(arg.u())): raise Unsupported('long option table')
                names[cstring(eng, p).decode('latin1')] = (val.u(), arg.u() == 1); rets[val.u()] = arg.u() == 1 or rets.get(val.u(), False)
            else: raise Unsupported('long option table without an end')
        for x, (name, arg) in L.options.items():
            eng.prove(st, x in short and short[x] == arg, f'-{x} is an option that takes {"an" if arg else "no"} argument')
            if longopts: eng.prove(st, names.get(name) == (ord(x), arg), f'--{name} is the same as -{x}')
        k = st.g['ng']; st.g['ng'] = k + 1; r = OPTR(k); st.assume(z3.Or(r == -1, r == BAD, *[r == x for x in rets]))
        ind, arg = (eng.prog.resolve(n, eng.callstack[-1].module) for n in ('optind', 'optarg')); n = fresh('optind'); st.assume(n >= 1, n < 2**31, z3.Implies(c.s(0) >= 1, n <= c.s(0)))
        st.put('M32', ind, 0, n); st.put('PO', arg, 0, OARG(k)); st.assume(OARG(k) >= 0)
        row_ = fresh('argv', ROW); av = Z(a[1].obj); st.assume(z3.Select(row_, 0) == st.p(av, 0)); st.h['PO'] = z3.Store(st.h['PO'], av, row_)      # it may permute the arguments
        if longopts and not (isc(a[4].obj) and a[4].obj == 0):
            x = freshint(32, 'index', True); st.assume(rangefact(x)); eng.store(st, a[4], ir.INT(32), x, check=False)
        return [(st, IV(32, r, -2**31, 2**31 - 1))]
    return h
def argv(st, c, k): return z3.Select(z3.Select(st.h['PO'], c.o(1)), 8 * Z(k))
def optind(st, c): return z3.Select(z3.Select(st.h['M32'], c.eng.prog.resolve('optind', c.eng.prog.fn(c.con.fn).module)), 0)

class MainLayer(ToolLayer):
    def __init__(self, options):
        super().__init__(); self.options = options; self.libc.update(getopt_long=getopt(True), getopt=getopt(False))
    def init_state(self, eng):
        st = super().init_state(eng); st.g['ng'] = I(0); st.g['ncalls'] = I(0)
        for n in ('tret', 'targ0', 'targ1', 'targ2'): st.g[n] = fresh(n)
        st.g['tPO'] = fresh('tPO', HEAP); return st
class Tool(Lib):
    modifies = ('ncalls', 'tret', 'targ0', 'targ1', 'targ2', 'tPO')
    def ensures(s, c):
        g = c.new.g; v = lambda k: c.o(k) if isinstance(c.a[k], PV) else c.u(k)
        return [('', And(g['ncalls'] == c.old.g['ncalls'] + 1, g['tret'] == c.ret.s(), g['tPO'] == c.old.h['PO'], *[g[f'targ{k}'] == v(k) for k in range(len(c.a))]))]
class PrettyCall(Tool): fn = 'IFF_prettyPrint'
class JoinCall(Tool):
    fn = 'IFF_join'
    def requires(s, c): return [('an array of names', Or(c.o(0) > HEAP0, c.u(1) == 0))]

class Main(Contract):
    flag = None
    modifies = ALLHP + ('nxt', 'live', 'ng', 'chatter') + Tool.modifies
    def requires(s, c): return [('an argument vector', And(c.o(1) > HEAP0, c.s(0) >= 0))]
    def defs(s, k): return []
    def loop_facts(s, c, L): return s.defs(L.it)
    def facts(s, c): return s.defs(I(0))
    def post_facts(s, c): return s.defs(c.new.g['ng'] - 1)
    def goes_on(s, r): return And(r != -1, r != HELP, r != VERSION, r != BAD)
    def hints(s, c, L):
        st = L.st; i = z3.Int('i!'); n = c.s(0); E = L.entry
        out = [('options so far', st.g['ng'] == L.it), ('not run yet', st.g['ncalls'] == 0), ('all of them go on', z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < st.g['ng']), s.goes_on(OPTR(i))), patterns=[OPTR(i)])), ('nothing is allocated', And(st.g['nxt'] == c.old.g['nxt'], st.g['live'] == c.old.g['live']))]
        return out + s.more(c, L)
    def ensures(s, c):
        g, st = c.new.g, c.new; n = g['ng']; last = OPTR(n - 1); ran = g['ncalls'] == 1; i = z3.Int('i!')
        return [('options are taken until they end', And(n >= 1, Not(s.goes_on(last)), z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n - 1), s.goes_on(OPTR(i))), patterns=[OPTR(i)]))),
                ('at most one run', Or(ran, g['ncalls'] == 0)), ('nothing is run when help, the version or something unknown is asked for', Imp(ran, last == -1)),
                ('something unknown is reported by the status', Imp(last == BAD, c.ret.u() != 0)), ('the status is that of the run', Imp(ran, c.ret.s() == g['tret']))] + s.result(c, n - 1, last == -1, ran)
class PrettyMain(Main):
    fn = 'iffpp/main.c:main'
    def defs(s, k): return [Not(SEEN(0)), Iff(SEEN(k + 1), Or(SEEN(k), OPTR(k) == ord('c')))]
    def more(s, c, L):
        return [(f'{nm} tells whether -c was given', Iff(v.u() == 1, SEEN(L.it))) for nm, v in L.phi.items() if isinstance(v, IV) and v.n in (8, 32)] + [(f'{nm} is a flag', Or(v.u() == 0, v.u() == 1)) for nm, v in L.phi.items() if isinstance(v, IV) and v.n in (8, 32)] + \
               [(f'local {k} tells whether -c was given', And(Iff(v.u() == 1, SEEN(L.it)), Or(v.u() == 0, v.u() == 1))) for k, (v0, v) in L.cell.items() if isinstance(v, IV) and v.n in (8, 32)]
    def result(s, c, n, end, ran):
        g = c.new.g; ind = optind(c.new, c)
        return [('otherwise a file is printed', Imp(end, ran)), ('it is the file named, or the standard input', Imp(ran, g['targ0'] == z3.If(ind < c.s(0), argv(c.new, c, ind), 0))),
                ('checking is disabled exactly if that was asked for', Imp(ran, Iff(g['targ1'] % 2 == 1, SEEN(n))))]
class JoinMain(Main):
    fn = 'iffjoin/main.c:main'
    def defs(s, k): return [OUTF(0) == 0, OUTF(k + 1) == z3.If(OPTR(k) == ord('o'), OARG(k), OUTF(k))]
    def hints(s, c, L):
        if L.st.g['nxt'] is not L.entry.g['nxt'] or not (isc(L.entry.g['ng']) or L.entry.g['ng'].eq(I(0))): return s.copying(c, L)
        return super().hints(c, L)
    def more(s, c, L):
        return [(f'{nm} is the output file', v.obj == OUTF(L.it)) for nm, v in L.phi.items() if isinstance(v, PV) and isc(v.offset()) and not c.eng.is_cell(v)]
    def copying(s, c, L):
        """the loop that makes the array of names: the array is the newest object"""
        st = L.st; i = z3.Int('i!'); a = L.entry.g['nxt'] - 1; PO, P0 = st.h['PO'], L.entry.h['PO']; ind = optind(L.entry, c); n = c.s(0) - ind
        at = lambda lo, hi: forall([i], z3.Implies(z3.And(i >= lo, i < hi), z3.Select(z3.Select(PO, a), 8 * i) == argv(L.entry, c, ind + i)), z3.Select(z3.Select(PO, a), 8 * i))
        return [('the names so far', at(0, L.it)), ('within', L.it <= n), ('nothing else changes', forall([o_], z3.Implies(o_ != a, z3.Select(PO, o_) == z3.Select(P0, o_)), z3.Select(PO, o_)))] + ([('the last names', at(n - L.it, n))] if L.down else [])
    def result(s, c, n, end, ran):
        g = c.new.g; ind = optind(c.new, c); m = c.s(0) - ind; i = z3.Int('i!'); P = z3.Select(g['tPO'], g['targ0'])
        return [('otherwise files are joined, if there are any and memory for their names', Imp(ran, ind < c.s(0))), ('no run is reported by the status', Imp(And(end, Not(ran)), c.ret.u() != 0)),
                ('the files named, in order', Imp(ran, And(g['targ1'] == m, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < m), z3.Select(P, 8 * i) == argv(c.new, c, ind + i)), patterns=[z3.Select(P, 8 * i)])))),
                ('the output goes to the file named, or the standard output', Imp(ran, g['targ2'] == OUTF(n))),
                ('everything allocated is released', forall([o_], live(c.new, o_) == live(c.old, o_), live(c.new, o_)))]
def ppmain_layer():
    L = MainLayer({'c': ('disable-check', False), 'h': ('help', False), 'v': ('version', False)}); L.name = 'ppmain'
    for k in (PrettyCall, PrettyMain): L.add(k)
    return L
def joinmain_layer():
    L = MainLayer({'o': ('output-file', True), 'h': ('help', False), 'v': ('version', False)}); L.name = 'joinmain'
    for k in (JoinCall, JoinMain): L.add(k)
    return L
