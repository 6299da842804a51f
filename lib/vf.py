"""The shared machinery of the checks.

A check (see ../checks) goes through these steps:
  1. build /repo's working tree,
  2. model check the specification (TLC, exhaustive within the constants),
  3. generate cases (operation scripts generated by TLC from the specification
     and/or seeded random inputs),
  4. execute them with the real code, recording a trace of events,
  5. validate the recorded traces against the specification with TLC.
A rejected trace is executed and validated once more by itself before it is
reported.
"""
import concurrent.futures
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

import build as _build

VERIF = _build.VERIF
SPEC = os.path.join(VERIF, 'spec')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
PY = _build.PY
NPROC = os.cpu_count() or 4


class CheckError(Exception):
    """The check itself could not be carried out."""


class TlcResult:
    def __init__(self, rc, out):
        self.rc = rc
        self.out = out
        m = re.findall(r'(\d[\d,]*) states generated.*?(\d[\d,]*) distinct', out)
        self.generated, self.distinct = (
            (int(m[-1][0].replace(',', '')), int(m[-1][1].replace(',', '')))
            if m else (0, 0))
        m = re.findall(r'depth of the complete state graph search is (\d+)', out)
        self.depth = int(m[-1]) if m else 0

    @property
    def ok(self):
        return self.rc == 0


_procs = set()
_procs_lock = threading.Lock()


def run_proc(cmd, timeout, **kw):
    """subprocess.run() with the output captured, in a group of its own."""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         start_new_session=True, text=True, errors='replace', **kw)
    with _procs_lock:
        _procs.add(p)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
        return 'timeout', out
    finally:
        with _procs_lock:
            _procs.discard(p)


def kill_all():
    with _procs_lock:
        for p in list(_procs):
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass


def tlc(module, cfg, *, env=None, workers=1, timeout=600, extra=(), heap='2g',
        work=None, fpmem=None):
    meta = tempfile.mkdtemp(prefix='tlc-', dir=work)
    cmd = ['java', '-XX:+UseParallelGC' if workers != 1 else '-XX:+UseSerialGC',
           f'-Xmx{heap}', '-Xss400m', f'-Djava.io.tmpdir={meta}', '-XX:TieredStopAtLevel=1' if workers == 1 else '-XX:+TieredCompilation',
           '-cp', JARS,
           'tlc2.TLC', '-config', os.path.join(SPEC, cfg), '-metadir', meta,
           '-noGenerateSpecTE', '-workers', str(workers), *extra,
           os.path.join(SPEC, module + '.tla')]
    e = dict(os.environ, LC_ALL='C.UTF-8')
    e.update(env or {})
    try:
        rc, out = run_proc(cmd, timeout, env=e, cwd=SPEC)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return TlcResult(rc, out)


class Rejection:
    def __init__(self, case, events, at, why):
        self.case = case
        self.events = events
        self.at = at          # index (0-based) of the event that is rejected
        self.why = why


class Check:
    """One run of the check of a property."""

    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.quick = tier == 'quick'
        self.t0 = time.time()
        os.makedirs(os.path.join(VERIF, 'work'), exist_ok=True)
        self.work = tempfile.mkdtemp(prefix=f'{pid}-', dir=os.path.join(VERIF, 'work'))
        self.mc_runs = []
        self.gen_runs = []
        self.val_runs = []
        self.states = self.transitions = 0
        self.traces = 0
        self.events = 0
        self.rejections = []
        self.hangs = 0
        self.samples = []
        self.known = []
        self.assumptions = []
        self.kinds = {}
        self.futures = []
        self.lock = threading.Lock()
        self.pool = concurrent.futures.ThreadPoolExecutor(max_workers=32)
        self.slots = threading.Semaphore(max(2, NPROC))

    def pick(self, quick, thorough):
        return quick if self.quick else thorough

    def background(self, f, *a, **kw):
        """Runs f in the background; finish() waits for it (and its errors)."""
        fut = self.pool.submit(f, *a, **kw)
        self.futures.append(fut)
        return fut

    def log(self, *a):
        print(f'[{self.pid} {time.time() - self.t0:6.1f}s]', *a, flush=True)

    # -- 1 -------------------------------------------------------------------
    def build(self, flavor='small'):
        t = time.time()
        lib = _build.build(flavor)
        self.log(f'built {flavor} in {time.time() - t:.1f}s')
        return lib

    # -- 2 -------------------------------------------------------------------
    def mc(self, module, cfg=None, *, workers=4, timeout=800, heap='4g', extra=()):
        """Exhaustively model check the specification."""
        cfg = cfg or module + '.cfg'
        t = time.time()
        r = tlc(module, cfg, workers=workers, timeout=timeout, heap=heap,
                work=self.work, extra=extra)
        if not r.ok:
            raise CheckError(f'TLC rejects the specification {module} ({cfg}): '
                             f'{r.rc}\n{r.out[-6000:]}')
        with self.lock:
            self.states += r.distinct
            self.transitions += r.generated
            self.mc_runs.append({'module': module, 'config': cfg,
                                 'distinct_states': r.distinct,
                                 'states_generated': r.generated,
                                 'depth': r.depth,
                                 'wall_s': round(time.time() - t, 1)})
        self.log(f'model checked {module} ({cfg}): {r.distinct} states, '
                 f'{time.time() - t:.1f}s')
        return r

    # -- 3 -------------------------------------------------------------------
    def gen(self, module, cfg=None, *, num=None, depth=None, seed=None, env=None,
            timeout=300):
        """Operation scripts: behaviours of the specification.

        With num: TLC simulates that many of them. Otherwise TLC enumerates all of
        the behaviours (the history of operations is a part of the state).
        """
        cfg = cfg or module + '.cfg'
        seed = self.seed if seed is None else seed
        extra = []
        if num:
            extra = ['-simulate', f'num={num}', '-depth', str(depth), '-seed', str(seed)]
        r = tlc(module, cfg, timeout=timeout, work=self.work, env=env, extra=extra)
        out = []
        for line in r.out.splitlines():
            if line.startswith('"GEN '):
                out.append(json.loads(json.loads(line)[4:]))
        if r.rc not in (0,) or not out:
            raise CheckError(f'TLC did not generate behaviours of {module}: '
                             f'{r.rc}\n{r.out[-4000:]}')
        if not num:
            with self.lock:
                self.states += r.distinct
                self.transitions += r.generated
        self.gen_runs.append({'module': module, 'config': cfg, 'behaviours': len(out),
                              'mode': 'simulation' if num else 'exhaustive'})
        self.log(f'{len(out)} behaviours of {module} ({cfg})')
        return out

    # -- 4 -------------------------------------------------------------------
    def execute(self, driver, cases, lib, *, env=None, stall=90, preload=None):
        """Runs the cases with the real code. Returns one list of events per case.

        The driver writes a line per event. If the process dies or does not
        make any progress for `stall` seconds, this is recorded in the trace.
        """
        traces = [[] for _ in cases]
        todo = list(range(len(cases)))
        crashes = 0
        while todo:
            d = tempfile.mkdtemp(prefix='exec-', dir=self.work)
            inp, outp = os.path.join(d, 'cases.json'), os.path.join(d, 'trace.ndjson')
            with open(inp, 'w') as f:
                json.dump([cases[i] for i in todo], f)
            open(outp, 'w').close()
            e = dict(os.environ, PYTHONPATH=lib + ':' + os.path.join(VERIF, 'drivers'),
                     PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1',
                     OPENBLAS_NUM_THREADS='1', PYTHONHASHSEED='0',
                     PYTHONWARNINGS='ignore', TMPDIR=d,
                     # Contents that were not initialised or were freed become visible
                     MALLOC_PERTURB_=str(1 + (self.seed * 37 + 164) % 254))
            e.update(env or {})
            if preload:
                e['LD_PRELOAD'] = preload
            p = subprocess.Popen([PY, os.path.join(VERIF, 'drivers', driver), inp, outp],
                                 stdout=open(os.path.join(d, 'log'), 'w'),
                                 stderr=subprocess.STDOUT, env=e, cwd=d,
                                 start_new_session=True)
            with _procs_lock:
                _procs.add(p)
            last, size, status = time.time(), -1, None
            while True:
                try:
                    status = p.wait(timeout=0.05 if time.time() - last < 2 else 0.5)
                    break
                except subprocess.TimeoutExpired:
                    s = os.path.getsize(outp)
                    if s != size:
                        last, size = time.time(), s
                    elif time.time() - last > (stall if self.hangs < 4 else min(stall, 30)):
                        status = 'hang'
                        break
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.wait()
            with _procs_lock:
                _procs.discard(p)
            done = -1
            for line in open(outp, errors='replace'):
                if not line.endswith('\n'):
                    break
                ev = json.loads(line)
                k = ev.pop('case')
                done = max(done, k)
                if ev['ev'] != 'Begin':
                    traces[todo[k]].append(ev)
            logtext = open(os.path.join(d, 'log'), errors='replace').read()
            shutil.rmtree(d, ignore_errors=True)
            if status == 0:
                break
            if status == 3:
                raise CheckError(f'{driver} failed:\n{logtext[-4000:]}')
            if done < 0:
                # Not even the first case was begun
                raise CheckError(f'{driver} could not run ({status}):\n{logtext[-4000:]}')
            if status == 'hang':
                traces[todo[done]].append({'ev': 'Hang', 'seconds': stall})
                self.hangs += 1
            else:
                crashes += 1
                traces[todo[done]].append({'ev': 'Crash', 'status': status,
                                           'log': logtext[-600:]})
            todo = todo[done + 1:]
            if status == 'hang' or crashes >= 20:
                # Enough to report, the other cases may take as long
                for i in todo:
                    traces[i] = None
                break
        return traces

    # -- 5 -------------------------------------------------------------------
    def _validate_file(self, module, cfg, events, timeout):
        d = tempfile.mkdtemp(prefix='val-', dir=self.work)
        path = os.path.join(d, 'trace.ndjson')
        with open(path, 'w') as f:
            for ev in events:
                f.write(json.dumps(ev) + '\n')
        r = tlc(module, cfg, env={'TRACE': path}, timeout=timeout, work=d, heap='3g')
        shutil.rmtree(d, ignore_errors=True)
        with self.lock:
            self.val_runs.append(r.distinct)
        if r.ok:
            return None, ''
        if r.rc == 'timeout':
            raise CheckError(f'TLC timed out validating a trace with {module}')
        if 'StackOverflow' in r.out or 'OutOfMemory' in r.out:
            raise CheckError(f'TLC ran out of memory with {module}:\n{r.out[-3000:]}')
        m = re.findall(r'<<"STUCK", (\d+)>>', r.out)
        if m:
            return int(m[-1]) - 1, 'no behaviour of the specification continues with this event'
        m = re.findall(r'^/?\\? ?l = (\d+)', r.out, re.M)
        if m and ('Error: ' in r.out):
            why = '; '.join(x for x in re.findall(r'^(?:Error: )?(.*)$', r.out[r.out.index('Error: '):], re.M)[:6])
            return max(map(int, m)) - 1, 'the event is outside of the domain of the specification: ' + why[:500]
        raise CheckError(f'TLC failed with {module}: {r.rc}\n{r.out[-6000:]}')

    def validate(self, module, cases, traces, cfg=None, timeout=800):
        """Validates the traces (TLC, one run for all of them)."""
        cfg = cfg or module + '.cfg'
        bad = []
        alive = list(range(len(cases)))
        while alive:
            events, owner = [], []
            for i in alive:
                for j, ev in enumerate(traces[i]):
                    events.append(ev)
                    owner.append((i, j))
            at, why = self._validate_file(module, cfg, events, timeout)
            if at is None:
                break
            i, j = owner[min(at, len(owner) - 1)]
            bad.append(Rejection(cases[i], traces[i], j, why))
            alive = alive[alive.index(i) + 1:]
            if len(bad) >= 3:
                break
        return bad

    def sched_lib(self, lib):
        """The library that perturbs the schedule, for the flavor sched."""
        return os.path.join(lib, 'libvfsched.so')

    def conform(self, driver, module, cases, lib, *, cfg=None, env=None, chunk=None,
                stall=90, confirm=2, preload=None, timeout=800, jobs=None):
        """Executes the cases, validates the traces and confirms rejections."""
        if not cases:
            raise CheckError('no cases')
        if os.environ.get('VF_LIMIT'):   # for the development of the checks
            cases = cases[::max(1, len(cases) // int(os.environ['VF_LIMIT']))]
        jobs = jobs or NPROC
        chunk = chunk or max(1, -(-len(cases) // jobs))
        chunks = [cases[i:i + chunk] for i in range(0, len(cases), chunk)]
        t = time.time()

        def work(cs):
            with self.slots:
                trs = self.execute(driver, cs, lib, env=env, stall=stall, preload=preload)
                cs = [x for x, tr in zip(cs, trs) if tr is not None]
                trs = [tr for tr in trs if tr is not None]
                if os.environ.get('VF_DUMP'):
                    with open(os.environ['VF_DUMP'], 'a') as fp:
                        fp.writelines(json.dumps(ev) + '\n' for tr in trs for ev in tr)
                bad = self.validate(module, cs, trs, cfg, timeout)
            return cs, trs, bad

        futs = [self.pool.submit(work, c) for c in chunks]
        found = []
        for f in futs:
            cs, trs, bad = f.result()
            self.traces += len(cs)
            for c, tr in zip(cs, trs):
                self.events += len(tr)
                for ev in tr:
                    k = ev.get('ev')
                    self.kinds[k] = self.kinds.get(k, 0) + 1
            if len(self.samples) < 4 and trs:
                self.samples.append(_abbrev(trs[0][:6]))
            found += bad
        for rej in found[:4]:
            ev = rej.events[rej.at]
            # What the machine may cause: no memory, no space
            outside = ev['ev'] == 'Unexpected' or ev['ev'] == 'Crash' and ev.get('status') == -9
            if ev['ev'] != 'Hang':
                again = None
                for _ in range(confirm):
                    trs = self.execute(driver, [rej.case], lib, env=env, stall=stall,
                                       preload=preload)
                    bad = self.validate(module, [rej.case], trs, cfg, timeout)
                    if bad:
                        again = bad[0]
                        break
                if again is None:
                    # A schedule that is not repeated: the recorded trace has to
                    # be rejected by itself.
                    if outside or not self.validate(module, [rej.case], [rej.events], cfg,
                                                    timeout):
                        raise CheckError(f'a rejection was not repeated: {rej.why} '
                                         f'{json.dumps(ev)[:1000]}')
            self.rejections.append((driver, module, rej))
        self.log(f'{len(cases)} cases of {driver} validated with {module} in '
                 f'{time.time() - t:.1f}s, {len(found)} rejected')
        return not found

    # -- reports ---------------------------------------------------------------
    def finish(self, level, extra=None):
        for fut in self.futures:
            fut.result()
        viol = 0
        os.makedirs(os.path.join(VERIF, 'work', 'replay'), exist_ok=True)
        for n, (driver, module, rej) in enumerate(self.rejections):
            path = os.path.join(VERIF, 'work', 'replay', f'{self.pid}-{n}.json')
            with open(path, 'w') as f:
                json.dump({'property': self.pid, 'driver': driver, 'module': module,
                           'case': rej.case, 'rejected_event': rej.at, 'why': rej.why,
                           'events': rej.events}, f, indent=1)
            ev = rej.events[rej.at] if rej.at < len(rej.events) else {}
            self.log('rejected:', rej.why, json.dumps(ev)[:1500])
            print(f'VIOLATION property={self.pid} replay={path}', flush=True)
            viol += 1
        cov = {
            'states': self.states,
            'transitions': self.transitions,
            'traces_validated_against_impl': self.traces,
            'events_validated': self.events,
            'events_by_kind': self.kinds,
            'trace_states': sum(self.val_runs),
            'model_checking_runs': self.mc_runs,
            'behaviours_generated_by_tlc': self.gen_runs,
            'samples': self.samples,
        }
        cov.update(extra or {})
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': level,
              'coverage': cov, 'assumptions': self.assumptions,
              'wall_s': round(time.time() - self.t0, 1), 'violations': viol}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', f'{self.pid}.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        self.log(f'{self.traces} traces, {self.events} events, {self.states} states, '
                 f'{viol} violations')
        return 1 if viol else 0

    def close(self):
        kill_all()
        self.pool.shutdown(wait=False, cancel_futures=True)
        shutil.rmtree(self.work, ignore_errors=True)


def _abbrev(x, n=24):
    if isinstance(x, dict):
        return {k: _abbrev(v, n) for k, v in x.items()}
    if isinstance(x, list):
        return [_abbrev(v, n) for v in x[:n]] + (['...'] if len(x) > n else [])
    return x
