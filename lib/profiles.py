"""Operation mixes of the core trace driver, per property."""
BASE = dict(start=3, sleep=2, spin=1)
FULL = dict(start=3, sleep=3, join=2, suspend=2, resume=3, cancel=3, send=4, bcast=1, recv=4,
            tryrecv=1, close=1, select=2, tryselect=1, gyield=1, gnext=2, gstart=1, gclose=1,
            lock=3, rdlock=3, trylock=1, tryrdlock=1, unlock=6, mdestroy=1, cwait=3, csig=2,
            cbc=1, wgadd=2, wgdone=2, wgwait=2, setcs=1, setct=1, push=3, pop=2, exit=1,
            stats=2, ids=1, spin=1, bad=1, renew=1)

def mk(**kw):
    d = dict(BASE)
    d.update(kw)
    return d

SIG = dict(raise_=3, sigwait=5, watch=4, unwatch=1)

PROFILES = {
    'full': FULL,
    'fullsig': dict(FULL, **{'raise': 1, 'sigwait': 2, 'watch': 2, 'unwatch': 1}),
    'fullwork': dict(FULL, work=2),
    'life': mk(start=10, gstart=3, exit=3, cancel=4, setcs=2, setct=2, ids=4, join=2, suspend=2,
               maxstart=30, maxops=5, push=1, pop=1, bad=0, watch=0),
    'lifesig': mk(start=10, exit=3, cancel=4, setct=2, ids=3, maxstart=25, maxops=5,
                  **{'raise': 1, 'sigwait': 3, 'watch': 4}),
    'join': mk(start=6, join=10, exit=2, cancel=3, suspend=1, setct=1, setcs=1, maxstart=25, maxops=6),
    'time': mk(sleep=8, recv=3, send=3, lock=2, rdlock=1, unlock=3, wgwait=2, wgadd=1, suspend=2,
               join=2, select=2, cwait=2, spin=4, dlinf=10, dlpast=15, cancel=1, capmax=1),
    'timelong': mk(sleep=8, recv=3, send=3, lock=2, rdlock=1, unlock=3, wgwait=2, wgadd=1, suspend=2,
               join=2, select=2, cwait=2, spin=4, dlinf=20, dlpast=10, cancel=3, capmax=1, tscale=1000),
    # deadlines while others wait for descriptors
    'timeio': mk(sleep=8, fdwait=6, read=3, write=2, recv=2, suspend=2, cancel=1, dlinf=10, dlpast=8, initial=6),
    # somebody is always ready: the runtime never idles
    'busy': mk(**{'yield': 40}, spin=8, sleep=6, join=1, recv=2, send=2, lock=2, unlock=3, wgwait=1, suspend=2, cancel=2, dlinf=15, initial=7, maxops=40),
    'fulllong': dict(FULL, tscale=3000),
    'chan': mk(send=10, recv=10, tryrecv=2, select=1, cancel=2, close=1, dlinf=35, spin=2),
    'chan2': mk(send=10, recv=9, cancel=5, close=0, spin=3, dlinf=20, nhot=1, setct=1),
    'cap': mk(send=10, recv=7, tryrecv=4, capmax=5, nhot=2, dlinf=50, stats=2),
    'cap2': mk(send=8, recv=10, tryrecv=3, capmax=2, nhot=1, dlinf=30, cancel=1, stats=1),
    'close': mk(send=8, recv=7, tryrecv=3, close=4, select=3, tryselect=2, cancel=2, nhot=2, gstart=1, gnext=1),
    'select': mk(send=9, recv=2, select=10, tryselect=3, close=1, cancel=2, bcast=1, nch=4, ngen=0),
    'select2': mk(send=8, select=12, cancel=3, spin=3, dlinf=25, bcast=2, nch=2, ngen=0, setct=1),
    'bcast': mk(send=1, recv=10, select=4, bcast=7, close=1, cancel=2, stats=1, dlinf=50),
    'bigcap': mk(send=8, recv=4, select=8, tryselect=2, cancel=2, close=1, bigcap=70, nch=3),
    'gen': mk(gstart=6, gyield=3, gnext=10, gclose=1, start=2, cancel=2, exit=2, ngen=5, nch=2,
              maxstart=20, setct=1, join=1),
    'lock': mk(lock=8, rdlock=6, trylock=3, tryrdlock=3, unlock=10, mdestroy=1, cancel=2, dlinf=40, exit=1,
               stats=1),
    'lock2': mk(lock=8, rdlock=8, unlock=12, cancel=4, spin=3, dlinf=20, setct=1),
    'cond': mk(renew=1, cwait=10, csig=6, cbc=2, lock=4, trylock=1, unlock=6, cancel=3, dlinf=45),
    'cond2': mk(cwait=10, csig=5, cbc=3, lock=3, rdlock=2, unlock=5, cancel=4, spin=2, dlinf=25, setct=1, exit=1),
    'wg': mk(renew=1, wgadd=7, wgdone=8, wgwait=10, cancel=3, dlinf=40, spin=2, stats=1),
    'cancel': mk(cancel=12, setcs=4, setct=3, suspend=3, recv=3, send=2, lock=3, unlock=3, join=2,
                 wgwait=1, select=1, cwait=1, spin=1, exit=1),
    'cancel2': mk(cancel=10, setcs=6, sleep=4, suspend=4, recv=2, start=5, maxstart=20, push=1, pop=1, disabled=40,
                  **{'raise': 1, 'sigwait': 2, 'watch': 2}),
    'cancelwork': mk(cancel=8, work=4, recv=2, sleep=3, suspend=2, setct=1),
    'clean': mk(push=8, pop=3, cancel=6, exit=3, setct=2, suspend=4, recv=3, send=2, lock=2, unlock=1, cwait=1,
                join=2, **{'async': 70}),
    'susp': mk(suspend=10, resume=12, cancel=3, spin=2, dlinf=45, exit=1, setct=1),
    'susp2': mk(suspend=10, resume=10, cancel=3, close=3, recv=4, select=3, bcast=2, unlock=3, lock=3, cwait=1, cbc=1,
                dlinf=30, spin=2),
    'sig': mk(**{'raise': 6, 'sigwait': 10, 'watch': 7, 'unwatch': 3, 'cancel': 3, 'spin': 2, 'dlinf': 45, 'exit': 1,
                 'stats': 1, 'maxstart': 16}),
    'io': mk(start=2, read=8, write=8, fdwait=3, cancel=2, closew=1, closer=1, dlinf=55, stats=1, initial=5),
    'io1': mk(start=2, read=8, write=8, fdwait=2, cancel=2, closew=1, closer=1, dlinf=55, stats=1, initial=7, nhot=1),
    'iofault': mk(start=2, read=8, write=8, fdwait=3, cancel=2, closew=1, closer=1, dlinf=45, initial=6, iofault=30,
                  setct=1, nhot=3),
    'iobig': mk(start=2, read=6, write=6, fdwait=1, cancel=3, closew=1, closer=1, dlinf=35, initial=6, bigio=60,
                setct=1, work=1),
    'ioburst': mk(start=2, read=8, write=8, fdwait=3, cancel=2, closew=1, closer=1, dlinf=45, initial=6, iofault=10),
    'fdwait': mk(start=3, read=2, write=4, fdwait=12, cancel=3, closew=1, closer=1, dlinf=45, stats=1, initial=7, bigio=25),
    'fdwait1': mk(start=3, read=2, write=3, fdwait=12, cancel=3, closew=1, closer=1, dlinf=35, stats=1, initial=7, nhot=1,
                  setct=1, bigio=40),
    'evfault': mk(start=2, read=8, write=8, fdwait=6, cancel=2, closew=1, closer=1, dlinf=45, initial=6, evfault=40),
    'statsio': mk(start=3, read=6, write=5, fdwait=8, cancel=4, closew=1, closer=1, dlinf=35, stats=10, initial=6, setct=1, send=2, recv=2, **{'async': 40}),
    'workring': mk(work=8, cancel=3, sleep=2, recv=1, send=1, wfifo=0, pcfail=30),
    'worktmo': mk(work=10, cancel=3, sleep=2, recv=1, send=1, wtmo=60),
    'work': mk(work=8, cancel=3, sleep=2, recv=1, send=1),
    'stats': dict(FULL, stats=12, **{'sigwait': 2, 'watch': 2, 'raise': 1}),
    'bad': dict(FULL, bad=14),
    'perm': dict(FULL, perm=10),
    'permwork': mk(perm=6, work=5, recv=2, send=2, cancel=1),
    'mem': mk(mem=1, start=5, gstart=2, gnext=3, gyield=2, send=5, recv=5, select=4, maxsel=1, ref=2, unref=2, remake=3,
              exit=2, cancel=3, maxstart=20, close=1, setct=1, push=1),
    'memio': mk(mem=1, start=4, read=4, write=5, fdwait=3, cancel=3, closew=1, closer=1, initial=6, setct=1, exit=1),
    'memfull': dict(FULL, mem=1, ref=2, unref=2, remake=2, **{'raise': 1, 'sigwait': 2, 'watch': 2}),
    'memwork': dict(FULL, mem=1, ref=1, unref=1, work=3, memfail=4),
}

# many coroutines at once
CROWD = dict(nco=40, initial=40, maxstart=60)
PROFILES['crowd'] = dict(FULL, **CROWD)
PROFILES['crowdbusy'] = dict(PROFILES['busy'], nco=100, initial=100, maxstart=150)
PROFILES['crowdspin'] = mk(**{'yield': 90}, spin=2, sleep=2, suspend=1, resume=1, recv=1, send=1, dlinf=5, nco=100, initial=98, allinit=1, horizon=30, maxstart=150, maxops=200)
PROFILES['crowdtime'] = dict(PROFILES['time'], **CROWD)
PROFILES['crowdjoin'] = dict(PROFILES['join'], **CROWD)
PROFILES['crowdchan'] = dict(PROFILES['chan2'], dlinf=40, **CROWD)
PROFILES['crowdlock'] = dict(PROFILES['lock2'], **CROWD)
PROFILES['crowdcancel'] = dict(PROFILES['cancel'], **CROWD)
PROFILES['crowdfd'] = dict(PROFILES['fdwait'], **CROWD)
# long enough for pools and the event queue to be given up
LONG = dict(tscale=40)
for _p in ('life', 'gen', 'io', 'fdwait', 'mem', 'memio', 'memfail', 'full', 'work', 'susp'):
    PROFILES[_p + '40'] = dict(PROFILES[_p], **LONG) if _p in PROFILES else dict(PROFILES['mem'], memfail=8, **LONG)

PROFILES['memenum'] = dict(PROFILES['mem'], memenum=20)

PROFILES['memfail'] = dict(PROFILES['mem'], memfail=8)

PROFILES['memfail2'] = dict(PROFILES['mem'], memfail=40)
PROFILES['memiofail'] = dict(PROFILES['memio'], memfail=10)
PROFILES['memfullfail'] = dict(PROFILES['memfull'], memfail=6)
# property -> core profiles of its check
CORE = {
    'C02': ['life', 'lifesig', 'full', 'life:nopool', 'life40'],
    'C03': ['join', 'full', 'crowdjoin'],
    'C04': ['time', 'full', 'timeio', 'timelong', 'fulllong', 'crowdtime'],
    'C05': ['chan', 'chan2', 'select', 'close', 'crowdchan', 'bigcap'],
    'C06': ['cap', 'cap2', 'chan'],
    'C07': ['close', 'chan', 'select'],
    'C08': ['select', 'select2', 'bcast'],
    'C09': ['bcast', 'select'],
    'C10': ['gen', 'full', 'gen40'],
    'C11': ['lock', 'lock2', 'cond'],
    'C12': ['lock2', 'lock', 'cond2', 'crowdlock'],
    'C13': ['cond', 'cond2'],
    'C14': ['wg', 'full'],
    'C15': ['cancel', 'cancel2', 'cancelwork', 'fullsig', 'crowdcancel'],
    'C16': ['clean', 'full'],
    'C17': ['susp', 'susp2', 'full', 'susp40'],
    'C18': ['io', 'io1', 'iofault', 'iobig', 'ioburst:burst', 'iofault:noww', 'evfault', 'io:now', 'io40', 'crowdfd'],
    'C19': ['fdwait', 'fdwait1', 'io1', 'fdwait:noww', 'evfault', 'crowdfd', 'fdwait40'],
    'C21': ['sig', 'fullsig'],
    'C22': ['work', 'fullwork', 'workring:ring', 'work40', 'worktmo'],
    'C23': ['perm', 'permwork'],
    'C24': ['mem', 'memenum', 'memfail', 'memfail2:nopool', 'memio', 'memiofail', 'memfull', 'memfullfail', 'memwork', 'mem40', 'memio40', 'memfail40'],
    'C25': ['stats', 'full', 'statsio', 'crowd'],
    'C26': ['bad', 'full'],
}

def args(name):
    out = []
    for k, v in PROFILES[name].items():
        out.append(f"{k.rstrip('_')}={v}")
    return out
