"""Per claimed property: the deciding method and what its level means (goes into MANIFEST.json)."""
_V = ('Every recorded event must be an allowed transition of the specification: TLC searches all resolutions of its '
      'nondeterminism and the run is rejected if none explains the trace. Programs, schedules and faults are generated from '
      'VERIF_SEED (sampled, not all), with a virtual clock. Trusted: the driver, the C compiler, TLC.')
_X = ' The same specification is model checked exhaustively within small bounds (operation budget in the cfg) for the invariants of this property.'
def _core(what, mc=True):
    return ('TLA+ (NecoCore): TLC validates traces of random programs run by the real code' +
            (', and exhaustive TLC of the same transition functions' if mc else '') + '; NecoBulk: crowds of hundreds and sizes up to 70000; ' + what, _V + (_X if mc else ''))
CLAIMS = {
 'C01': ('TLA+ (NecoSched, NecoCore+TraceFair): all scripts of length 6 (thorough 8) over start/yield/suspend/resume/join/end run by the real code and '
         'validated by TLC, exhaustive TLC of MCSched, bounded bypass in mixed programs, and twin runs compared by TraceTwin',
         'The order is exact for all scripts up to the length, sampled beyond. ' + _V),
 'C02': _core('lifecycle, ids, arguments, state of reused coroutines'),
 'C03': _core('join against every way of ending'),
 'C04': _core('virtual clock: early, late and never are all events of the trace (idle until, return at)'),
 'C05': _core('exactly-once in-order delivery'),
 'C06': _core('capacity, blocking, wake order'),
 'C07': _core('close and drain'),
 'C08': _core('select and case'),
 'C09': _core('broadcast'),
 'C10': _core('generators'),
 'C11': _core('exclusion, try operations, destroy'),
 'C12': _core('hand-over order, withdrawal of waiters'),
 'C13': _core('condition variables with relocking'),
 'C14': _core('waitgroups'),
 'C15': _core('cancel once, disabled targets; also TraceStream for streams'),
 'C16': _core('cleanup handlers'),
 'C17': _core('suspend and resume'),
 'C18': _core('byte streams over pipes and sockets with injected short and interrupted calls', False),
 'C19': _core('readiness taken from poll(2) as an independent oracle', False),
 'C20': ('TLA+ (NecoStream): TLC validates traces of buffered and unbuffered streams of the real code with faults, deadlines, cancels and allocation failures', _V),
 'C21': ('TLA+ (NecoCore, NecoProc): TLC validates traces of random programs, of processes signaled from outside, and of a process stopped at every single '
         'instruction of a program (ptrace) with a signal delivered there; NecoBulk: hundreds of arrivals and waiters; exhaustive TLC (Sig)', _V + _X),
 'C22': _core('work on threads, pinned order, thread creation failing, threads that time out'),
 'C23': ('TLA+ (NecoCore, NecoStack): TLC validates the traces of 2-8 concurrently running runtimes, each against its own instance of the specification, with '
         'calls from outside and on foreign objects', _V),
 'C24': ('TLA+ (NecoCore with failing allocations, NecoStream): every block, stack and descriptor is accounted for; allocation failures at random points '
         'and at every single allocation of a program', _V),
 'C25': _core('statistics compared with those computed from the state of the specification at random moments'),
 'C26': ('TLA+ (NecoCore, NecoStream, NecoErr): the last error is part of every return event; every system error is injected and checked; panic mode (NecoProc)', _V),
 'C27': ('TLA+ (NecoNet): TLC validates traces of dial, serve, accept, lookups and pipes of the real code on the loopback, with faults at each system call, cancels and deadlines', _V),
 'C28': ('TLA+ (NecoStack): TLC validates traces with the address range of every stack, contents of frames and registers across switches, in nine build configurations', _V),
 'C29': ('TLA+ (NecoRand): TLC validates that the recorded output is a function of seed and request sizes', _V),
 'C30': ('TLA+ (NecoProc): TLC validates the history and the ending (wait status) of whole processes', _V),
}
NA = {}
