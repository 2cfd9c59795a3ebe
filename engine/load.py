"""Compile /repo's current sources to LLVM IR in a scratch directory and link them into a Program."""
import os, re, shutil, subprocess, tempfile, glob
from concurrent.futures import ThreadPoolExecutor
import ir, vc

REPO = os.environ.get('VERIF_REPO', '/repo')
CLANG = ['clang-18', '-O0', '-Xclang', '-disable-O0-optnone', '-fno-discard-value-names', '-Wno-everything', '-S', '-emit-llvm']
DEFS = ['-DPACKAGE_NAME="libiff"', '-DPACKAGE_VERSION="0.1"', '-DHAVE_GETOPT_H=1']

def sources():
    out = []
    for d in ('libiff', 'iffjoin', 'iffpp'):
        out += sorted(glob.glob(os.path.join(REPO, 'src', d, '*.c')))
    return out

def scratch():
    return tempfile.mkdtemp(prefix='libiff-verif-')

def copy_sources(dst, big_endian=0):
    """the real sources; the generated ifftypes.h is produced from its template"""
    for d in ('libiff', 'iffjoin', 'iffpp'):
        s = os.path.join(REPO, 'src', d); t = os.path.join(dst, 'src', d); os.makedirs(t)
        for f in os.listdir(s):
            if f.endswith(('.c', '.h', '.in')) and f != 'ifftypes.h': shutil.copy(os.path.join(s, f), t)
    tpl = open(os.path.join(dst, 'src/libiff/ifftypes.h.in')).read()
    open(os.path.join(dst, 'src/libiff/ifftypes.h'), 'w').write(tpl.replace('@IFF_BIG_ENDIAN@', str(big_endian)))

def modname(path):
    b = os.path.basename(path)[:-2]; d = os.path.basename(os.path.dirname(path))
    return f'{d}/{b}.c'

class CompileError(Exception): pass

def compile_ir(dst, passes='mem2reg,tailcallelim'):
    srcs = []
    for d in ('libiff', 'iffjoin', 'iffpp'): srcs += sorted(glob.glob(os.path.join(dst, 'src', d, '*.c')))
    def one(f):
        r = subprocess.run(CLANG + DEFS + ['-I' + os.path.join(dst, 'src/libiff'), f, '-o', '-'], capture_output=True, text=True)
        if r.returncode: raise CompileError(f + ': ' + r.stderr[:2000])
        r2 = subprocess.run(['opt-18', '-S', '-passes=' + passes, '-', '-o', '-'], input=r.stdout, capture_output=True, text=True)
        if r2.returncode: raise CompileError(f + ': ' + r2.stderr[:2000])
        return modname(f), r2.stdout
    with ThreadPoolExecutor(8) as ex: return list(ex.map(one, srcs))

def load(big_endian=0, keep=None):
    d = keep or scratch()
    try:
        copy_sources(d, big_endian)
        mods = [ir.parse_module(n, t) for n, t in compile_ir(d)]
        # tail-recursion-eliminated twin, used for self-recursive functions without a contract
        return vc.Program(mods)
    finally:
        if keep is None: shutil.rmtree(d, ignore_errors=True)
