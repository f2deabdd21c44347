"""Which jobs decide which property."""
from engine import TraceJob, TwinJob, MCJob
import profiles as P

def core_jobs(prop, tier, seed):
    jobs = []
    profs = P.CORE[prop]
    rounds = 4 if tier == 'quick' else 40
    variants = ['am', 'sep', 'dense', 'am']
    n = 0
    for r in range(rounds):
        for k, p in enumerate(profs + ([] if len(profs) > 2 else profs[:1])):
            n += 1
            v = variants[(k + r) % 4]
            if ':' in p:
                p, v = p.split(':')
            s = seed * 1000 + n
            jobs.append(TraceJob('core', v, [f'seed={s}', 'n=100000', 'maxev=20000'] + P.args(p),
                                 label=f'core/{p}/{v}/seed{s}'))
    return jobs

SCHED_WRAPS = ['clock_gettime', 'nanosleep', 'clock_nanosleep', 'usleep', 'epoll_wait', 'epoll_pwait', 'epoll_pwait2']
def sched_jobs(tier, seed):
    """C01: exact scheduling order, bounded bypass in mixed programs, determinism."""
    jobs = [MCJob('MCSched', 'MCSched.cfg' if tier == 'quick' else 'MCSchedBig.cfg', workers=4, timeout=3600)]
    b = {'wraps': SCHED_WRAPS}
    length, parts = (6, 6) if tier == 'quick' else (8, 160)
    for k in range(parts):
        jobs.append(TraceJob('sched', 'am', [f'len={length}', 'ops=6', f'part={k}', f'parts={parts}'], module='TraceSched',
                             label=f'sched/all scripts of length {length}/{k}', build=b))
    for k in range(2 if tier == 'quick' else 40):
        v = ['sep', 'dense'][k % 2]
        jobs.append(TraceJob('sched', v, [f'seed={seed * 100 + k}', 'n=1500', 'maxco=6'], module='TraceSched',
                             label=f'sched/random/{v}/{k}', build=b))
    profs = ['full', 'chan', 'lock', 'fullsig', 'cond2', 'susp2', 'time', 'cancel', 'crowdspin', 'busy', 'crowdspin', 'crowdbusy']
    for k in range(12 if tier == 'quick' else 240):
        p = profs[k % 12]
        jobs.append(TraceJob('core', ['am', 'sep'][k % 2], [f'seed={seed * 1000 + k}', 'n=100000', 'maxev=15000'] + P.args(p),
                             module='TraceFair', label=f'fair/{p}/{k}'))
    for k in range(2 if tier == 'quick' else 40):
        p = ['full', 'fullsig', 'select', 'cancel'][k % 4]
        jobs.append(TwinJob('core', 'am', [f'seed={seed * 1000 + 500 + k}', 'n=100'] + P.args(p), label=f'twin/{p}/{k}'))
    return jobs

STREAM_WRAPS = SCHED_WRAPS + ['read', 'write', 'mmap', 'munmap']
STREAM_OPTS = [['iofault=0', 'cancel=1'], ['iofault=20', 'cancel=1', 'bad=5'], ['iofault=0', 'cancel=0', 'mem=0'], ['iofault=20', 'cancel=0'],
               ['mem=15', 'iofault=5', 'bad=3']]
def stream_jobs(tier, seed, quick=16, opts=STREAM_OPTS):
    jobs = []
    for k in range(quick if tier == 'quick' else quick * 12):
        v = ['am', 'noww', 'sep', 'am', 'dense', 'am'][k % 6]
        o = opts[k % len(opts)]
        jobs.append(TraceJob('stream', v, [f'seed={seed * 1000 + k}', 'n=100000', 'maxev=20000'] + o,
                             module='TraceStream', label=f'stream/{v}/{" ".join(o)}/{k}', build={'wraps': STREAM_WRAPS}))
    return jobs

def proc_jobs(tier, seed, modes, quick=1):
    """Whole processes. Mode 0: watched and unwatched signals, exit codes; 1: panics too; 2: signals sent by another
    process while threads work; 3: a signal at every instruction."""
    jobs = []
    for m in modes:
        for k in range(quick if tier == 'quick' else 20 * quick):
            v = ['am', 'sep'][k % 2]
            b = {'wraps': [], 'cflags': ['-Wl,-z,now']}
            if m == 3:
                for p in range(6):
                    jobs.append(TraceJob('proc', v, [f'seed={seed * 1000 + k}', 'mode=3', 'n=500', 'parts=6', f'part={p}'], module='TraceProc',
                                         label=f'proc/signal at every instruction/{v}/{k}/{p}', build=b, timeout=120, done='"exit"'))
            else:
                jobs.append(TraceJob('proc', v, [f'seed={seed * 1000 + k}', f'mode={m}', f'n={1000 if m < 2 else 400}'], module='TraceProc',
                                     label=f'proc/mode{m}/{v}/{k}', build=b, timeout=120, done='"exit"'))
    return jobs

def iso_jobs(tier, seed):
    """C23: several threads run programs at the same time, and use each other's objects."""
    jobs = []
    profs = ['full', 'lock', 'chan', 'select', 'life', 'cond', 'gen', 'cancel']
    for k in range(8 if tier == 'quick' else 160):
        p, nt = profs[k % 8], [2, 4, 8, 3][k % 4]
        jobs.append(TraceJob('core', ['am', 'sep'][k % 2], [f'seed={seed * 1000 + k}', f'n={400 // nt // 2}', f'threads={nt}', 'perm=4'] + P.args(p),
                             label=f'threads/{nt}/{p}/{k}', build={'cflags': ['-DTHREADED']}, parts=nt))
    for k in range(2 if tier == 'quick' else 40):
        jobs.append(TraceJob('stk', 'am', [f'seed={seed * 1000 + k}', 'n=1000', 'maxev=20000', 'threads=4', 'maxco=30'], module='TraceStack',
                             label=f'stk/threads/{k}', build={'wraps': SCHED_WRAPS, 'cflags': [SMALL]}))
    return jobs

SMALL = '-DNECO_STACKSIZE=131072'
STACK_BUILDS = [   # (name, variant, flags)
    ('small', 'am', [SMALL]),
    ('guards', 'am', [SMALL, '-DNECO_USEGUARDS', '-DNECO_GAPSIZE=4096']),
    ('caps', 'sep', [SMALL, '-DNECO_DEFCAP=1', '-DNECO_MAXCAP=3', '-DNECO_GAPSIZE=4096']),
    ('default', 'am', []),
    ('nofreelist', 'am', [SMALL, '-DNECO_NOSTACKFREELIST', '-DNECO_DEFCAP=1', '-DNECO_GAPSIZE=4096']),
    ('nopool', 'nopool', [SMALL]),
    ('heap', 'am', [SMALL, '-DNECO_USEHEAPSTACK']),
    ('odd', 'sep', ['-DNECO_STACKSIZE=150000', '-DNECO_GAPSIZE=1']),
    ('noasm', 'am', [SMALL, '-DLLCO_NOASM']),
]
def stack_jobs(tier, seed):
    jobs = []
    opts = [['maxco=60'], ['threads=3', 'maxco=30'], ['maxco=150', 'deep=60'], ['maxco=8', 'async=60', 'deep=50']]
    n = 0
    for r in range(2 if tier == 'quick' else 40):
        for k, (name, v, fl) in enumerate(STACK_BUILDS):
            o = opts[(k + r) % 4]
            n += 1
            jobs.append(TraceJob('stk', v, [f'seed={seed * 1000 + n}', 'n=1000', 'maxev=20000'] + o, module='TraceStack',
                                 label=f'stk/{name}/{n}', build={'wraps': SCHED_WRAPS, 'cflags': fl}))
    return jobs

NET_WRAPS = SCHED_WRAPS + ['write', 'socket', 'connect', 'accept', 'bind', 'listen', 'setsockopt', 'fcntl', 'pipe',
                           'pthread_create', 'getaddrinfo', 'freeaddrinfo']
def net_jobs(tier, seed):
    jobs = []
    opts = [[], ['fault=10'], ['fault=5', 'mem=5'], ['zero=1'], ['zero=1', 'fault=20', 'async=80'], ['cancel=0', 'fault=3']]
    for k in range(12 if tier == 'quick' else 240):
        v = ['am', 'sep', 'noww', 'am', 'dense'][k % 5]
        jobs.append(TraceJob('net', v, [f'seed={seed * 1000 + k}', 'n=100000', 'maxev=15000'] + opts[k % 6],
                             module='TraceNet', label=f'net/{v}/{" ".join(opts[k % 6])}/{k}', build={'wraps': NET_WRAPS}, confirm=3))
    return jobs

MISC_WRAPS = SCHED_WRAPS + ['read', 'write', 'accept', 'connect']
def rand_jobs(tier, seed):
    """C29: what the generator gives is a function of the seed and the sizes."""
    jobs = []
    for k in range(10 if tier == 'quick' else 200):
        th = 4 if k % 5 == 4 else 1
        jobs.append(TraceJob('misc', ['am', 'sep', 'dense'][k % 3], [f'seed={seed * 1000 + k}', f'n={120 // th}', f'threads={th}'],
                             module='TraceRand', label=f'rand/{k}', build={'wraps': MISC_WRAPS}, parts=th if th > 1 else 0))
    return jobs
def err_jobs(tier, seed):
    return [TraceJob('misc', v, ['mode=1'], module='TraceErr', label=f'errors/{v}', build={'wraps': MISC_WRAPS})
            for v in ('am', 'sep', 'noww')]

# many coroutines at one object, large capacities, sizes and counts
BULK = {
    'C02': 'start', 'C03': 'join', 'C04': 'sleep', 'C05': 'chan', 'C06': 'chan', 'C07': 'chan,select', 'C08': 'select,chan', 'C09': 'chan',
    'C10': 'gen', 'C11': 'rw', 'C12': 'rw', 'C13': 'cond', 'C14': 'wg', 'C15': 'cancel,join', 'C16': 'clean', 'C17': 'susp',
    'C18': 'fd', 'C19': 'fd', 'C21': 'sig', 'C22': 'work',
    'C25': 'chan,rw,wg,cond,join,susp,cancel,sleep,fd,start,sig,select',
}
def bulk_jobs(prop, tier, seed):
    jobs = []
    for k in range(4 if tier == 'quick' else 80):
        v = ['am', 'sep', 'dense', 'nopool'][k % 4]
        jobs.append(TraceJob('bulk', v, [f'seed={seed * 1000 + k}', 'n=100000', 'maxev=1500' if tier == 'quick' else 'maxev=6000', 'kinds=' + BULK[prop]], module='TraceBulk',
                             label=f'bulk/{BULK[prop]}/{v}/{k}', build={'wraps': SCHED_WRAPS}))
    return jobs

# the exhaustive configurations of the specification that state the property
MC = {
    'C02': ['Join'], 'C03': ['Join'], 'C04': ['Time'], 'C05': ['Chan0', 'Chan1', 'ChanCancel'], 'C06': ['Chan1', 'RecvOrder'],
    'C07': ['Chan0', 'Select'], 'C08': ['Select', 'SelectCancel'], 'C09': ['Bcast'], 'C10': ['Gen'], 'C11': ['Lock'],
    'C12': ['Lock', 'LockCancel', 'LockAsync'], 'C13': ['Cond', 'CondCancel'], 'C14': ['Wg', 'WgCancel'],
    'C15': ['Cancel', 'CancelAsync'], 'C16': ['Clean'], 'C17': ['Susp'], 'C21': ['Sig'], 'C22': ['Work'], 'C25': ['LockAsync'],
}
def mc_jobs(prop, tier):
    jobs = [MCJob('MCCore', f'MC_{n}.cfg', workers=2, heap='3g', timeout=3600, label=f'exhaustive/{n}') for n in MC.get(prop, [])]
    if tier != 'quick':
        # one more process or operation: where this does not end in time, what was explored by then is reported
        jobs += [MCJob('MCCore', f'MC_{n}Big.cfg', workers=4, heap='7g', timeout=1500, label=f'exhaustive/{n}, larger')
                 for n in MC.get(prop, [])]
    return jobs

def plan(prop, tier, seed):
    jobs = mc_jobs(prop, tier)
    if prop in P.CORE:
        jobs += core_jobs(prop, tier, seed)
    if prop in BULK:
        jobs += bulk_jobs(prop, tier, seed)
    if prop == 'C01':
        jobs += sched_jobs(tier, seed)
    if prop == 'C20':
        jobs += stream_jobs(tier, seed)
    if prop == 'C21':
        jobs += proc_jobs(tier, seed, [0, 2, 3])
    if prop == 'C30':
        jobs += proc_jobs(tier, seed, [0, 1], 4) + proc_jobs(tier, seed, [2])
    if prop == 'C24':
        jobs += stream_jobs(tier, seed, 4, [['mem=0', 'cancel=1'], ['mem=10', 'iofault=5'], ['mem=30']])
    if prop == 'C26':
        jobs += stream_jobs(tier, seed, 3, [['bad=30', 'iofault=5'], ['mem=20', 'bad=20']]) + proc_jobs(tier, seed, [1]) + err_jobs(tier, seed)
    if prop == 'C15':
        jobs += stream_jobs(tier, seed, 2, [['cancel=1', 'iofault=10']])
    if prop == 'C23':
        jobs += iso_jobs(tier, seed)
    if prop == 'C27':
        jobs += net_jobs(tier, seed)
    if prop == 'C28':
        jobs += stack_jobs(tier, seed)
    if prop == 'C29':
        jobs += rand_jobs(tier, seed)
    return jobs
