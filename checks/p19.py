"""P19: finding the file of a scan."""
import random

NUMS = [1, 2, 12, 21, 121, 5]
IDS = [5, 1, 55, 15, 155, 50]


def file(r):
    v = r.randrange(2)
    f = {'v': v, 'num': r.choice(NUMS), 'id': r.choice(IDS), 'th': -1,
         'suffix': r.choice(['', '', '_offsets', '_centered'])}
    if v == 0:
        k = r.randrange(3)
        if k:
            f['id'] = -1
            f['th'] = r.choice([-1, 4, 40]) if k == 1 else 4
    return f


def query(r):
    k = r.random()
    q = {'version': r.choice([-1, -1, 0, 1]) if r.random() < .95 else r.choice([2, 7]),
         'num': -1, 'id': -1, 'th': -1, 'suffix': r.choice(['', '', '_offsets', '_centered'])}
    if k > .05:
        if k < .5 or k > .9:
            q['id'] = r.choice(IDS)
        if k >= .5:
            q['num'] = r.choice(NUMS)
    if r.random() < .3:
        q['th'] = r.choice([4, 40])
    return q


def run(c):
    rng = random.Random(c.seed)
    c.background(c.mc, 'ScanFilesMC', c.pick('ScanFilesQuick.cfg', 'ScanFilesThorough.cfg'))
    small = c.build('small')
    cases = []
    for _ in range(c.pick(2000, 20000)):
        ops, seen = [], []
        if rng.random() < .3:
            ops.append(['junk', rng.choice(['README', 'data_scan.txt', 'FOURD.h5', 'scan1.h5'])])
        for _ in range(rng.choice([10, 30])):
            k = rng.random()
            if k < .3 or not seen:
                seen.append(file(rng))
                ops.append(['create', seen[-1]])
            elif k < .4:
                ops.append(['remove', rng.choice(seen)])
            else:
                q = query(rng)
                if rng.random() < .4:
                    f = rng.choice(seen)
                    q.update(num=f['num'] if f['id'] < 0 else rng.choice([-1, f['num']]),
                             suffix=f['suffix'], th=f['th'])
                    q['id'] = f['id'] if q['num'] < 0 or rng.random() < .3 else -1
                ops.append(['lookup', q, rng.choice(['path', 'str', 'explicit'])])
        cases.append({'ops': ops, 'day': rng.choice([0, 0, 1, 5])})
    c.conform('d_scanfiles.py', 'TraceScanFiles', cases, small)
