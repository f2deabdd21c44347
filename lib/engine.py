"""Plans and runs the jobs that decide a property."""
import json, os, shutil, sys, threading, time
from concurrent.futures import ThreadPoolExecutor, as_completed
import common as C
import profiles as P

class TraceJob:
    """Run a driver on the real code, then validate the recorded trace with TLC."""
    def __init__(self, driver, variant, args, module='TraceCore', timeout=60, label='', build=None,
                 marker='"reset"', done='"done"', env=None, parts=0, confirm=0):
        self.driver, self.variant, self.args, self.module = driver, variant, list(args), module
        self.timeout, self.label, self.build = timeout, label, build or {}
        self.marker, self.done, self.env = marker, done, env or {}
        self.parts = parts          # the driver writes one trace per thread
        self.confirm = confirm      # a rejection counts only if it comes again in one of that many further runs
    def key(self):
        return (self.driver, self.variant, json.dumps(self.build, sort_keys=True))

class TwinJob:
    """Run the same programs twice (once in a process that repeats each of them): same events?"""
    def __init__(self, driver, variant, args, timeout=60, label=''):
        self.driver, self.variant, self.args = driver, variant, list(args)
        self.timeout, self.label, self.build = timeout, label, {}
    key = TraceJob.key

class MCJob:
    """Exhaustive model checking of the specification itself."""
    def __init__(self, module, cfg, timeout=600, workers=2, heap='6g', label=''):
        self.module, self.cfg, self.timeout, self.workers, self.heap = module, cfg, timeout, workers, heap
        self.label = label or cfg

class Engine:
    def __init__(self, prop, tier, seed, scratch):
        self.prop, self.tier, self.seed, self.scratch = prop, tier, seed, scratch
        self.violations = []
        self.states = self.transitions = self.traces = self.events = 0
        self.mc_states = self.mc_trans = 0
        self.samples, self.jobs_done, self.assumptions = [], [], []
        self.lock = threading.Lock()
        self.n = 0
        self.stopping = False

    # -------------------------------------------------------------- jobs
    def run(self):
        import plans
        jobs = plans.plan(self.prop, self.tier, self.seed)
        b = C.Builder(self.scratch)
        keys = {}
        for j in jobs:
            if isinstance(j, (TraceJob, TwinJob)) and j.key() not in keys:
                kw = dict(j.build)
                kw['name'] = f'bin{len(keys)}'
                keys[j.key()] = ((j.driver, j.variant), kw)
        bins = dict(zip(keys.keys(), b.build_many([v for v in keys.values()])))
        with ThreadPoolExecutor(C.NCPU) as ex:
            futs = []
            for i, j in enumerate(jobs):
                if isinstance(j, TraceJob):
                    futs.append(ex.submit(self.do_trace, i, j, bins[j.key()]))
                elif isinstance(j, TwinJob):
                    futs.append(ex.submit(self.do_twin, i, j, bins[j.key()]))
                elif isinstance(j, MCJob):
                    futs.append(ex.submit(self.do_mc, i, j))
                else:
                    futs.append(ex.submit(j, self))
            err = None
            for f in as_completed(futs):
                try:
                    f.result()
                except C.Violation as v:
                    self.record_violation(v)
                    self.stopping = True
                except C.CheckError as e:
                    err = e
        if err and not self.violations:
            raise err

    def do_trace(self, i, job, binary):
        if self.stopping:
            return
        try:
            self.do_trace1(str(i), job, binary)
            return
        except C.Violation:
            if not job.confirm:
                raise
        # the machine's network is shared with other processes: once is no proof
        for k in range(job.confirm):
            self.do_trace1(f'{i}again{k}', job, binary)
        with self.lock:
            self.jobs_done.append(job.label + ' (a rejection that did not come again)')

    def do_trace1(self, i, job, binary):
        d = os.path.join(self.scratch, f'job{i}')
        os.makedirs(d)
        trace = os.path.join(d, 'trace.ndjson')
        cmd = [binary] + job.args + ['out=' + trace]
        rc, err = C.run_driver(cmd, job.timeout, d, job.env)
        if rc is None:
            # too slow or hanging: only a second, longer try decides
            rc, err = C.run_driver(cmd, job.timeout * 3, d, job.env)
        if rc == 9:
            raise C.CheckError(f'driver usage error {cmd}: {err}')
        if rc != 0 and rc != 7:
            # make the trace complete up to the crash
            C.run_driver(cmd + ['flush=1'], job.timeout, d, job.env)
        if not os.path.exists(trace):
            raise C.Violation(f'{job.label}: the program ended with status {rc} without a trace', [],
                              ' '.join(cmd) + '\n' + err[-3000:])
        for k in range(job.parts):
            self.trim(f'{trace}.{k}')
            with open(f'{trace}.{k}') as f, open(trace, 'a') as o:
                shutil.copyfileobj(f, o)
        self.trim(trace)
        ok, reached, total, gen, dist, out = C.validate(trace, job.module, self.scratch)
        if ok is None:
            if rc != 0:
                raise C.Violation(f'{job.label}: the program crashed (status {rc})', [trace], err[-3000:])
            raise C.CheckError(f'TLC failed on {job.label}:\n' + out[-3000:])
        ndone = 0
        sample = None
        with open(trace, errors='replace') as f:
            for l in f:
                if job.done in l:
                    ndone += 1
        with self.lock:
            self.states += dist
            self.transitions += gen
            self.traces += ndone
            self.events += total
            self.jobs_done.append(job.label)
            if ok and len(self.samples) < 3:
                self.samples.append({'job': job.label, 'events': [l.strip() for l in
                                     C.tail_program(trace, min(60, total), job.marker)][:40]})
        if not ok:
            frag = os.path.join(d, 'rejected.ndjson')
            with open(frag, 'w') as f:
                f.writelines(C.tail_program(trace, reached, job.marker))
            raise C.Violation(f'{job.label}: event {reached} of {total} of the recorded trace is not allowed '
                              f'by {job.module} (driver status {rc})', [frag],
                              'command: ' + ' '.join(cmd) + '\n' + err[-2000:])
        if rc != 0:
            raise C.Violation(f'{job.label}: the program ended with status {rc}', [trace],
                              'command: ' + ' '.join(cmd) + '\n' + err[-3000:])
        shutil.rmtree(d, ignore_errors=True)

    def do_twin(self, i, job, binary):
        if self.stopping:
            return
        d = os.path.join(self.scratch, f'job{i}')
        os.makedirs(d)
        a, b = os.path.join(d, 'a.ndjson'), os.path.join(d, 'b.ndjson')
        for f, extra in ((a, []), (b, ['rep=2'])):
            cmd = [binary] + job.args + extra + ['out=' + f]
            rc, err = C.run_driver(cmd, job.timeout, d)
            if rc is None:
                rc, err = C.run_driver(cmd, job.timeout * 3, d)
            if rc != 0:
                raise C.Violation(f'{job.label}: the program ended with status {rc}', [f],
                                  'command: ' + ' '.join(cmd) + '\n' + err[-3000:])
        progs = []
        for f in (a, b):
            ps = []
            for l in open(f):
                if '"reset"' in l:
                    ps.append([])
                ps[-1].append(l)
            progs.append(ps)
        n = min(len(progs[0]), len(progs[1]) // 2)
        t1, t2 = os.path.join(d, 't1.ndjson'), os.path.join(d, 't2.ndjson')
        with open(t1, 'w') as f1, open(t2, 'w') as f2:
            for k in range(n):
                f1.writelines(progs[0][k]); f2.writelines(progs[1][2 * k])
                f1.writelines(progs[0][k]); f2.writelines(progs[1][2 * k + 1])
        ok, reached, total, gen, dist, out = C.validate(t1, 'TraceTwin', self.scratch, {'TRACE2': t2})
        if ok is None:
            raise C.CheckError(f'TLC failed on {job.label}:\n' + out[-3000:])
        if not ok:
            raise C.Violation(f'{job.label}: two runs of the same program differ at event {reached}', [t1, t2])
        with self.lock:
            self.states += dist
            self.transitions += gen
            self.traces += 3 * n
            self.events += 2 * total
            self.jobs_done.append(job.label)
        shutil.rmtree(d, ignore_errors=True)

    @staticmethod
    def trim(trace):
        # a crash may have cut the last line
        with open(trace, 'rb+') as f:
            f.seek(0, 2)
            size = f.tell()
            if size == 0:
                f.write(b'{"e":"empty","t":0}\n')
                return
            back = min(size, 1 << 16)
            f.seek(size - back)
            data = f.read()
            if not data.endswith(b'\n'):
                cut = data.rfind(b'\n') + 1
                f.seek(size - back + cut)
                f.truncate()
                f.write(b'{"e":"crash","t":0}\n')

    def do_mc(self, i, job):
        if self.stopping:
            return
        rc, out, gen, dist = C.tlc(job.module + '.tla', job.cfg, self.scratch, heap=job.heap,
                                   workers=job.workers, timeout=job.timeout, c1=False, partial=self.tier == 'thorough')
        label = job.label
        if rc is None and 'Error:' not in out:
            # deep configurations: as much of the state space as the time allows, breadth first
            label += f' (partial: {dist} states in {job.timeout} s)'
        elif 'Model checking completed. No error has been found.' not in out:
            raise C.CheckError(f'the specification itself fails {job.cfg}:\n' + out[-4000:])
        with self.lock:
            self.mc_states += dist
            self.mc_trans += gen
            self.jobs_done.append(label)

    # ----------------------------------------------------------- results
    def record_violation(self, v):
        with self.lock:
            self.n += 1
            d = os.path.join(C.VERIF, 'replays', f'{self.prop}-{self.tier}-{self.n}')
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            for f in v.files:
                if os.path.exists(f):
                    if os.path.getsize(f) < 20_000_000:
                        shutil.copy(f, d)
            with open(os.path.join(d, 'report.txt'), 'w') as f:
                f.write(v.what + '\n\n' + v.detail + '\n')
            self.violations.append(v.what)
            print('  ' + v.what)
            print(f'VIOLATION property={self.prop} replay={d}', flush=True)

    def write_evidence(self, wall):
        os.makedirs(os.path.join(C.VERIF, 'evidence'), exist_ok=True)
        cov = {
            'states': self.states + self.mc_states,
            'transitions': self.transitions + self.mc_trans,
            'traces_validated_against_impl': self.traces,
            'trace_events': self.events,
            'model_states_exhaustive': self.mc_states,
            'jobs': sorted(self.jobs_done),
            'samples': self.samples,
        }
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': 'model_checking',
              'coverage': cov, 'wall_s': round(wall, 2), 'violations': len(self.violations)}
        with open(os.path.join(C.VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
