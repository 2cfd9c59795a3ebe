"""Search for a failing input on the real code (run when an obligation is not discharged, and by the thorough tier):
native/driver.c, compiled with /repo's current sources under the address and undefined-behaviour sanitizers."""
import os, json, shutil, subprocess, struct, time
import load

HERE = os.path.dirname(os.path.abspath(__file__))
FLAGS = ['-O1', '-g', '-w', '-fsanitize=address,undefined', '-fno-sanitize=shift,nonnull-attribute', '-fno-sanitize-recover=all'] + \
        ['-Wl,' + ','.join('--wrap=' + f for f in ('malloc', 'calloc', 'realloc', 'free', 'fopen', 'fclose'))]

def build(d):
    load.copy_sources(d)
    src = [os.path.join(d, 'src', x, f) for x in ('libiff', 'iffjoin', 'iffpp') for f in sorted(os.listdir(os.path.join(d, 'src', x))) if f.endswith('.c')]
    exe = os.path.join(d, 'driver')
    from concurrent.futures import ThreadPoolExecutor
    def one(f):
        o = f'{d}/{abs(hash(f))}.o'
        return o, subprocess.run(['gcc'] + FLAGS[:-1] + load.DEFS + [f'-Dmain={os.path.basename(os.path.dirname(f))}_main'] * ('/src/iff' in f) + ['-I' + os.path.join(d, 'src/libiff'), '-c', f, '-o', o], capture_output=True, text=True)
    with ThreadPoolExecutor(8) as ex: r = list(ex.map(one, src + [os.path.join(HERE, '..', 'native', 'driver.c')]))
    for _, p in r:
        if p.returncode: return None, p.stderr[:2000]
    p = subprocess.run(['gcc'] + FLAGS + [o for o, _ in r] + ['-o', exe], capture_output=True, text=True)
    return (exe, '') if p.returncode == 0 else (None, p.stderr[:2000])

def start(exe, prop, seed, first, last, seconds, d):
    os.makedirs(d, exist_ok=True)
    r, w = os.pipe(); err = open(os.path.join(d, 'stderr'), 'wb')
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:handle_abort=1', UBSAN_OPTIONS='print_stacktrace=1')
    def fds():
        os.dup2(w, 3)
    p = subprocess.Popen([exe, prop, str(seed), str(first), str(last), str(seconds), d], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=err,
                         preexec_fn=fds, pass_fds=(3,) if w == 3 else (3, w), env=env, cwd=d)
    os.close(w); err.close()
    return p, r

def finish(p, r, d, prop, seed):
    """None or a failing case; number of cases"""
    rep = b''
    while True:
        b = os.read(r, 65536)
        if not b: break
        rep += b
    os.close(r); rc = p.wait(); rep = rep.decode('utf-8', 'replace').strip()
    case = struct.unpack('<Q', open(os.path.join(d, 'case'), 'rb').read(8))[0] if os.path.exists(os.path.join(d, 'case')) else 0
    if rc == 0: return None, int(rep.split()[1]) if rep.startswith('OK') else 0
    if rep.startswith('FAIL'): what = rep.split(': ', 1)[1]
    elif rc == 9: return None, 0          # a limit of the driver
    elif rc == -14: what = 'the call does not return (20 s)'
    else:
        e = open(os.path.join(d, 'stderr'), errors='replace').read()
        i = max(e.find('ERROR: AddressSanitizer'), 0) or max(e.find('runtime error'), 0)
        line = e[e.rfind('\n', 0, i) + 1:][:900]
        what = f'crash (exit {rc}): {line.strip()}'
    return dict(what=what[:4000], driver=prop, seed=seed, case=case), 0

def search(prop, seed, seconds, procs=8):
    d = load.scratch(); t = time.time()
    try:
        exe, err = build(d)
        if not exe: return None, dict(driver=prop, error='the driver does not build: ' + err)
        run = [(k, os.path.join(d, f's{k}')) for k in range(procs)]
        run = [(start(exe, prop, seed, k * 10**9, (k + 1) * 10**9, seconds, sd), sd) for k, sd in run]
        # stop everyone as soon as one has found something
        while any(p.poll() is None for (p, _), _ in run):
            if any(p.poll() not in (None, 0, 9) for (p, _), _ in run):
                for (p, _), _ in run:
                    if p.poll() is None: p.kill(); p.killed = True
                break
            time.sleep(0.02)
        found, n = None, 0
        for (p, r), sd in run:
            if getattr(p, 'killed', False): p.wait(); os.close(r); continue
            f, k = finish(p, r, sd, prop, seed); n += k; found = found or f
        return found, dict(driver=prop, seed=seed, cases=n, processes=procs, seconds=round(time.time() - t, 1), found=bool(found))
    finally: shutil.rmtree(d, ignore_errors=True)

def replay(path):
    """re-runs the recorded case on /repo's current sources: 1 when it still fails"""
    j = json.load(open(path)); n = j.get('native')
    if not n: print('no failing input recorded; failed obligations: ' + '; '.join(o['function'] + ': ' + o['obligation'] for o in j['failed_obligations'])); return 0
    d = load.scratch()
    try:
        exe, err = build(d)
        if not exe: print('the driver does not build: ' + err); return 2
        sd = os.path.join(d, 's'); p, r = start(exe, n['driver'], n['seed'], n['case'], n['case'] + 1, 60, sd)
        f, _ = finish(p, r, sd, n['driver'], n['seed'])
        print('still fails: ' + f['what'] if f else 'does not fail'); return 1 if f else 0
    finally: shutil.rmtree(d, ignore_errors=True)
