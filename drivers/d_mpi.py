"""The multi pass reader and electron counting in several processes that are connected by
the MPI of ../mpi. Every process executes the same ops (see d_multipass.py and
d_electron.py); the events are what all of the processes together did, for TraceMultiPass
(what "read") or TraceElectronCount (what "count").
"""
import os
import pickle
import signal
import socket
import time

import common
import d_electron
import d_multipass
import sectors

LIMIT = 60


class Collect:
    def __init__(self):
        self.events = []

    def emit(self, ev, **kw):
        self.events.append((ev, kw))


def rank(case, d, k, paths):
    """Executes the ops, and writes the events of each of them"""
    results = []
    if case['what'] == 'read':
        tags = common.Tags()
        for f in case['files']:
            for r in f['records']:
                tags.make(r['tag'], sectors.shape(case))
        import _vharness
        reader = _vharness.MultiPass(paths, case['threads'][k])
    else:
        src = d_electron.Source(dict(case, threads=case['threads'][k]), os.path.join(d, str(k)))
    for i, op in enumerate(case['ops']):
        t = Collect()
        if 's' in op:
            op = dict(op, s=[op['s'][0] + k] + op['s'][1:])
        if case['what'] == 'read':
            d_multipass.ops_cpp(case, [op], t, tags, reader)
        else:
            d_electron.count(dict(case, threads=case['threads'][k]), src, op, t)
        results.append(t.events)
        p = os.path.join(d, f'rank{k}')
        with open(p + '.new', 'wb') as f:
            pickle.dump(results, f)
        os.rename(p + '.new', p)
        if case['what'] == 'count' and t.events[0][1]['kind'] == 'Error':
            os._exit(5)


def run(case, t, d):
    import stempy.io  # noqa: F401
    import stempy.image  # noqa: F401
    n = len(case['threads'])
    if case['what'] == 'read':
        paths = sectors.write(case, d, common.Tags())
        t.emit('New', **sectors.new_event(case))
    else:
        paths = None
        t.emit('New', source='files', w=case['size'], h=case['size'], px=case['px'],
               **sectors.new_event(case))
    ends = [[None] * n for _ in range(n)]
    for i in range(n):
        for j in range(i):
            ends[i][j], ends[j][i] = socket.socketpair()
    pids = []
    for k in range(n):
        os.mkdir(os.path.join(d, str(k)))
        pid = os.fork()
        if pid == 0:
            status = 3
            try:
                out = os.open(os.path.join(d, f'err{k}'), os.O_CREAT | os.O_WRONLY)
                os.dup2(out, 2)
                for i in range(n):
                    for s in ends[i]:
                        if i != k and s is not None:
                            s.close()
                fds = [-1 if s is None else s.fileno() for s in ends[k]]
                os.environ['VF_MPI'] = ' '.join(map(str, [k, n, case['seed'] + k] + fds)) \
                    if case['seed'] else ' '.join(map(str, [k, n, 0] + fds))
                rank(case, d, k, paths)
                status = 0
            except BaseException:  # noqa: B902
                import traceback
                traceback.print_exc()
                import sys
                sys.stderr.flush()
            finally:
                os._exit(status)
        pids.append(pid)
    for x in ends:
        for s in x:
            if s is not None:
                s.close()
    status = [None] * n
    end = time.time() + LIMIT
    while None in status and time.time() < end:
        for k in range(n):
            if status[k] is None:
                p, s = os.waitpid(pids[k], os.WNOHANG)
                if p:
                    status[k] = os.waitstatus_to_exitcode(s)
        time.sleep(.002)
    for k in range(n):
        if status[k] is None:
            os.kill(pids[k], signal.SIGKILL)
            os.waitpid(pids[k], 0)
    results, errors = [], []
    for k in range(n):
        p = os.path.join(d, f'rank{k}')
        results.append(pickle.load(open(p, 'rb')) if os.path.exists(p) else [])
        errors.append(open(os.path.join(d, f'err{k}')).read()[-500:])
    for i, op in enumerate(case['ops']):
        evs = [r[i] if i < len(r) else None for r in results]
        failed = [e for e in evs if e and e[0][0] == 'Count' and e[0][1]['kind'] == 'Error']
        if None in status:
            t.emit('Hang', status=[-99 if s is None else s for s in status], errors=errors)
            return
        if any(s not in (0, 5, 77) for s in status):
            t.emit('Crash', status=status, errors=errors)
            return
        if failed:
            # The job has failed
            t.emit('DistCount', ranks=n, **failed[0][0][1])
            return
        if None in evs:
            t.emit('Crash', status=status, errors=errors)
            return
        if case['what'] == 'count':
            t.emit('DistCount', ranks=n, **evs[0][0][1])
        elif op['op'] == 'ReadAll':
            done = {e[-1][1]['kind'] for e in evs}
            for e in evs:
                for ev, kw in e[:-1]:
                    t.emit(ev, **kw)
            t.emit('ReadAll', kind=done.pop() if len(done) == 1 else 'Mixed')
        else:
            for e in evs:
                for ev, kw in e:
                    t.emit(ev, **kw)


if __name__ == '__main__':
    common.main(run)
