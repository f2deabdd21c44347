"""Shared machinery of the checks: builds of /repo, trace drivers, TLC runs."""
import json, os, re, shutil, subprocess, sys, tempfile, time, signal, hashlib
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
HARN = os.path.join(VERIF, 'harness')
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
NCPU = max(2, min(8, os.cpu_count() or 2))
WRAPS = ['clock_gettime', 'nanosleep', 'clock_nanosleep', 'usleep', 'epoll_wait',
         'epoll_pwait', 'epoll_pwait2', 'read', 'write', 'pthread_create', 'mmap', 'munmap',
         'epoll_create1', 'epoll_ctl', 'pthread_cond_timedwait']

class Violation(Exception):
    def __init__(self, what, files=(), detail=''):
        super().__init__(what)
        self.what, self.files, self.detail = what, list(files), detail

class CheckError(Exception):
    pass

# ------------------------------------------------------------------ builds
VARIANTS = {
    # the single file as shipped
    'am':    (['neco.c'], ['-O2']),
    # the separate sources of deps/
    'sep':   (['neco.c', 'deps/sco.c', 'deps/stack.c', 'deps/worker.c'], ['-O1', '-DNECO_NOAMALGA']),
    # all coroutines in the same shard of every map
    'dense': (['neco.c'], ['-O1', '-DCOMAP_NSHARDS=1', '-DEVMAP_NSHARDS=1', '-DSCO_NSHARDS=1']),
    # other configurations of the library
    'noww': (['neco.c'], ['-O1', '-DNECO_NOWRITEWORKERS']),
    'now': (['neco.c'], ['-O1', '-DNECO_NOWORKERS']),
    'burst': (['neco.c'], ['-O1', '-DNECO_BURST=2', '-DNECO_MAXIOWORKERS=1']),
    'ring': (['neco.c'], ['-O1', '-DNECO_MAXRINGSIZE=1', '-DNECO_MAXWORKERS=2']),
    'nopool': (['neco.c'], ['-O1', '-DNECO_NOPOOL']),
    'sepdense': (['neco.c', 'deps/sco.c', 'deps/stack.c', 'deps/worker.c'],
                 ['-O2', '-DNECO_NOAMALGA', '-DCOMAP_NSHARDS=1', '-DEVMAP_NSHARDS=1', '-DSCO_NSHARDS=1']),
}

def sh(cmd, timeout=600, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout,
                          text=True, errors='replace', **kw)

class Builder:
    def __init__(self, scratch):
        self.scratch = scratch

    def build(self, driver, variant='am', wraps=None, cflags=(), extra=None, name=None):
        """Compile harness/<driver>.c with /repo's current sources."""
        srcs, flags = VARIANTS[variant]
        if extra is None:
            extra = {'core': ('vt.c', 'mem.c', 'perm.c'), 'stream': ('vt.c', 'mem.c'), 'proc': ()}.get(driver, ('vt.c',))
        out = os.path.join(self.scratch, name or f'{driver}.{variant}')
        wl = ','.join('--wrap=' + w for w in (WRAPS if wraps is None else wraps))
        cmd = ['gcc', '-g', '-w', '-std=gnu11'] + flags + list(cflags) + ['-I' + REPO, '-I' + HARN,
               os.path.join(HARN, driver + '.c')] + [os.path.join(HARN, e) for e in extra] + \
              [os.path.join(REPO, s) for s in srcs]
        if wl:
            cmd.append('-Wl,' + wl)
        cmd += ['-o', out, '-lpthread', '-ldl']
        r = sh(cmd)
        if r.returncode != 0:
            raise CheckError(f'build of {driver}/{variant} failed:\n' + r.stderr[-4000:])
        return out

    def build_many(self, specs):
        with ThreadPoolExecutor(NCPU) as ex:
            futs = [ex.submit(self.build, *a, **k) for a, k in specs]
            return [f.result() for f in futs]

# ------------------------------------------------------------------ TLC
STATE_RE = re.compile(r'([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found')
REACH_RE = re.compile(r'<<"REACHED", (\d+), "OF", (\d+)>>')

def tlc(module, cfg, scratch, env=None, heap='3g', workers=1, timeout=600, c1=True, extra=(), partial=False):
    meta = tempfile.mkdtemp(prefix='meta.', dir=scratch)
    cmd = ['java', '-XX:+UseSerialGC' if workers == 1 else '-XX:+UseParallelGC']
    if c1:
        cmd.append('-XX:TieredStopAtLevel=1')
    cmd += ['-Xmx' + heap, '-Xss16m', '-Djava.io.tmpdir=' + meta, '-cp', CP, 'tlc2.TLC', '-workers', str(workers),
            '-noGenerateSpecTE', '-metadir', meta, '-config', cfg] + list(extra) + [module]
    e = dict(os.environ)
    e.update(env or {})
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, errors='replace', timeout=timeout)
        rc, out = r.returncode, r.stdout
    except subprocess.TimeoutExpired as t:
        if not partial:
            raise CheckError(f'TLC timed out on {module} {cfg}')
        out = t.output or ''
        rc, out = None, out if isinstance(out, str) else out.decode(errors='replace')
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    m = None
    for m in STATE_RE.finditer(out):
        pass
    gen, dist = (int(m.group(1).replace(',', '')), int(m.group(2).replace(',', ''))) if m else (0, 0)
    return rc, out, gen, dist

def validate(trace, module, scratch, env=None, timeout=900):
    """Is the trace a behaviour of the specification? -> (ok, reached, total, gen, dist, out)"""
    ev = dict(env or {})
    ev['TRACE'] = trace
    rc, out, gen, dist = tlc(module + '.tla', module + '.cfg', scratch, ev, timeout=timeout)
    m = REACH_RE.search(out)
    if not m:
        return None, 0, 0, gen, dist, out
    reached, total = int(m.group(1)), int(m.group(2))
    return reached == total + 1, reached, total, gen, dist, out

# ------------------------------------------------------------------ drivers
def run_driver(cmd, timeout, cwd, env=None):
    """-> (rc, stderr); rc is None on timeout"""
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.Popen(cmd, cwd=cwd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE,
                         text=True, errors='replace', start_new_session=True, env=e)
    try:
        _, err = p.communicate(timeout=timeout)
        return p.returncode, err
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.communicate()
        return None, 'timeout'

def tail_program(trace, upto, marker='"reset"', maxlines=400):
    """The events of the program run that contains line `upto` (1-based)."""
    lines, cur = [], []
    with open(trace, errors='replace') as f:
        for n, l in enumerate(f, 1):
            if marker in l:
                cur = []
            cur.append(l)
            if n >= upto:
                break
    return cur[:2] + (['...\n'] if len(cur) > maxlines else []) + cur[2:][-maxlines:]
