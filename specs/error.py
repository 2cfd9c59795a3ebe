"""The diagnostics: every other layer uses 'an error message changes nothing but the standard error output' (handlers noop / diag of stdio.py);
here it is proved of the functions of error.c, together with the bounds of their local buffers.  Through the callback of the
application anything may happen to the text; it is assumed not to touch the memory of the library.  Format strings agree with their arguments: a
precondition of IFF_error, checked at every call in this layer and in the mem layer."""
from mem import *
import ids, print as prt
from stdio import formats

class Msg(Contract):
    modifies = ()
class ErrorId(Msg): fn = 'IFF_errorId'
class ReadError(Msg): fn = 'IFF_readError'
class WriteError(Msg): fn = 'IFF_writeError'
class Error(Msg):
    fn = 'IFF_error'
    def apply(s, eng, a, st): formats(eng, st, a[0], a[1:]); return [(st, UNDEF)]

def to_stderr(eng, st, f):
    eng.prove(st, z3.simplify(Z(f.obj) == prt.ext(eng, st, 'stderr')), 'diagnostics only go to the standard error output')
def out(k, fmt=None):
    def h(eng, st, a, ins):
        to_stderr(eng, st, a[k])
        if fmt is not None: formats(eng, st, a[fmt], a[fmt + 1:])
        return noop_int(eng, st, a, ins)
    return h
def wrong(eng, st, a, ins): eng.prove(st, False, 'diagnostics only go to the standard error output'); return noop_int(eng, st, a, ins)
def vout(eng, st, a, ins):
    to_stderr(eng, st, a[0]); started(eng, st, a[1], a[2])
    return noop_int(eng, st, a, ins)
def started(eng, st, fmt, ap):
    c = eng.ctx
    eng.prove(st, peq(fmt, c.a[0]), 'the format string is passed on')
    eng.prove(st, (ap.obj, ap.off) in st.g['va'], 'the arguments passed on are those of the message')
def va_start(eng, st, a, ins): st.g['va'] = st.g['va'] | {(a[0].obj, a[0].off)}; return [(st, UNDEF)]
def va_end(eng, st, a, ins): st.g['va'] = st.g['va'] - {(a[0].obj, a[0].off)}; return [(st, UNDEF)]

class ErrorLayer(MemLayer):
    name = 'error'; proof_ghosts = ('va',)
    def __init__(self):
        super().__init__()
        for f in ('IFF_error', 'IFF_errorId', 'IFF_readError', 'IFF_writeError'): del self.libc[f]
        for f in ('printf', 'puts', 'putchar', 'vprintf'): self.libc[f] = wrong
        for f in ('', '.p0'): self.libc['llvm.va_start' + f] = va_start; self.libc['llvm.va_end' + f] = va_end
        self.libc.update(vfprintf=vout, fprintf=out(0, 1), fputs=out(1), fputc=out(1), putc=out(1), fwrite=out(3), fflush=out(0))
    def init_state(self, eng): st = super().init_state(eng); st.g['va'] = frozenset(); return st
    def indirect(self, eng, st, fp, args, ins, ctx):
        if not isinstance(ctx.con, Error): raise Unsupported('indirect call')
        cb = eng.prog.resolve('IFF_errorCallback', eng.callstack[-1].module); glob = eng.prog.byid.get(cb)
        ok = isinstance(glob, tuple) and fp.prov is not None and fp.prov[0] == cb
        eng.prove(st, ok, 'messages go to the callback that was registered')
        if not ok: raise Unsupported('indirect call')
        started(eng, st, args[0], args[1])
        dflt = eng.global_init(glob[0], glob[2], glob[3], 0, ir.PTR); res = []
        s1, s2 = st.copy(), st
        s1.assume(Z(fp.obj) == Z(dflt.obj)); s2.assume(Z(fp.obj) != Z(dflt.obj))
        if not (isc(dflt.obj) and dflt.obj == 0): res += eng.call_id(dflt.obj, args, s1)
        return res + [(s2, UNDEF)]         # the callback of an application

def error_layer():
    L = ErrorLayer()
    for k in (Error, ErrorId, ReadError, WriteError): L.add(k)
    return L
