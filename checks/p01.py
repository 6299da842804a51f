"""P01: the reader of the single stream formats."""
import random

from sectorcases import random_scan


def concretize(rng, version, size, files, ops, big=False):
    """Headers, tags and sizes for the layout of the files."""
    tag = [0]

    def tags(k):
        tag[0] += k
        return list(range(tag[0] - k + 1, tag[0] + 1))

    out = []
    for f in files:
        blocks, total = [], 0
        for k in range(f['blocks']):
            if version == 1:
                n, h, w = rng.choice([1, 1, 2, 3, 7]), rng.randint(1, 9), rng.randint(1, 9)
                if big and rng.random() < .3:
                    n, h, w = 400, 3, 2
                b = {'head': [n, h, w, rng.choice([1, 1, 2, 7]), rng.randrange(1 << 31)],
                     'numbers': [rng.choice([rng.randint(1, 50), rng.randint(1, 1 << 30)])
                                 for _ in range(n)],
                     'frames': tags(n)}
                head, sz = 4096, 4096 + 2 * n * h * w
            elif version == 2:
                b = {'head': [rng.randrange(1 << 30)], 'numbers': [], 'frames': tags(1600)}
                head, sz = 4, 4 + 1600 * size * size * 2
            else:
                dims = random_scan(rng)
                x, y = [rng.choice([0, n - 1, rng.randrange(n)]) for n in dims]
                b = {'head': [rng.randrange(1 << 31), rng.randrange(1 << 31), dims[0],
                              dims[1], x, y], 'numbers': [], 'frames': tags(1)}
                head, sz = 16, 16 + size * size * 2
            blocks.append(b)
            total += sz
        if f['blocks']:
            keep = {'no': sz, 'header': rng.randint(1, head - 1), 'edge': head,
                    'data': rng.randint(head + 1, sz - 1) if sz - 1 > head else head,
                    'last': sz - 1}[f['cut']]
            total += keep - sz
        out.append({'blocks': blocks, 'bytes': total})
    return {'version': version, 'size': size, 'files': out, 'ops': ops,
            'single': rng.random() < .5}


def run(c):
    rng = random.Random(c.seed)
    mc = c.background(c.mc, 'StreamReaderBytes',
                      c.pick('StreamReaderBytesQuick.cfg', 'StreamReaderBytes.cfg'))
    small = c.build('small')
    scripts = c.gen('GenStreamReader')
    rng.shuffle(scripts)
    scripts = scripts[:c.pick(4000, 20000)]
    cases = []
    for k, s in enumerate(scripts):
        ops = [('Iter' if o == 'Read' and rng.random() < .3 else o) for o in s['ops']]
        v = (1, 3)[k % 2]
        cases.append(concretize(rng, v, 8, s['files'], ops))
    c.conform('d_stream.py', 'TraceStreamReader', cases, small)
    # More files, longer behaviours and large blocks
    cases = []
    for k in range(c.pick(24, 200)):
        files = [{'blocks': b, 'cut': rng.choice(['no', 'no', 'header', 'edge', 'data', 'last'])
                  if b else 'no'}
                 for b in (rng.randint(0, 4) for _ in range(rng.randint(1, 6)))]
        ops = [rng.choice(['Read', 'Read', 'Iter', 'Read', 'Read', 'Reset'][:rng.randint(5, 6)])
               for _ in range(rng.randint(10, 40))]
        cases.append(concretize(rng, (1, 3)[k % 2], 8, files, ops, big=True))
    c.conform('d_stream.py', 'TraceStreamReader', cases, small)
    # Version 2 has 1600 images in each block
    cases = []
    for k in range(c.pick(8, 40)):
        files = [{'blocks': b, 'cut': rng.choice(['no', 'no', 'header', 'edge', 'data', 'last'])
                  if b else 'no'}
                 for b in (rng.randint(0, 2) for _ in range(rng.randint(1, 2)))]
        ops = [rng.choice(['Read', 'Iter', 'Read', 'Read', 'Reset']) for _ in range(8)]
        cases.append(concretize(rng, 2, 8, files, ops))
    c.conform('d_stream.py', 'TraceStreamReader', cases, small)
    # The real size of the detector
    full = c.build('full')
    cases = []
    for k in range(c.pick(6, 24)):
        files = [{'blocks': b, 'cut': rng.choice(['no', 'no', 'header', 'data', 'last'])
                  if b else 'no'}
                 for b in (rng.randint(0, 2) for _ in range(rng.randint(1, 3)))]
        ops = [rng.choice(['Read', 'Iter', 'Read', 'Read', 'Reset']) for _ in range(8)]
        cases.append(concretize(rng, 3, 576, files, ops))
    c.conform('d_stream.py', 'TraceStreamReader', cases, full)
    mc.result()
