"""SectorStreamThreadedReader::readAll (see sectors.py).

case: ..., threads, runs: [[seed, probability, delay], ...] (with a reset before
each run but the first)
"""
import numpy as np

import common
import sched
import sectors


def project(case, tags, data):
    n = case['size']
    a = np.frombuffer(data, dtype='<u2')
    if a.size != n * n:
        return [-2] * 4
    return sectors.tags_of(case, tags, a.reshape(n, n))


def emit(t, case, tags, d):
    t.emit('Deliver', frame=d['frame'], images=d['images'], version=d['version'],
           dims=list(d['dims']), scan=list(d['scan']), numbers=list(d['numbers']),
           complete=list(d['complete']), sectors=project(case, tags, d['data']),
           later=project(case, tags, d['later']))


def run(case, t, d):
    import stempy.io  # noqa: F401 (registers the types of its modules)
    import _vharness
    tags = common.Tags()
    paths = sectors.write(case, d, tags)
    t.emit('New', **sectors.new_event(case))
    r = _vharness.Threaded(paths, case['version'], case['threads'])
    for k, s in enumerate(case['runs']):
        if k:
            r.reset()
            t.emit('Reset')
        sched.perturb(s)
        got = r.read_all()
        sched.calm()
        for x in got:
            emit(t, case, tags, x)
        t.emit('Done')


if __name__ == '__main__':
    common.main(run)
