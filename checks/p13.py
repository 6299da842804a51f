"""P13: electron counted HDF5 files."""
import math
import random

from sparsecases import Builder, random_array


def metadata(r, depth=0):
    d = {}
    for k in r.sample(['a', 'b', 'mean', 'electron_counting', 'x y', 'Name', 'values', 'é'],
                      r.choice([0, 1, 2, 4])):
        x = r.random()
        if x < .3 and depth < 3:
            d[k] = metadata(r, depth + 1)
        elif x < .4:
            d[k] = {'t': 'str', 'v': r.choice(['', 'text', 'ä', 'a b'])}
        elif x < .5:
            d[k] = {'t': 'bool', 'v': r.random() < .5}
        elif x < .65:
            d[k] = {'t': 'int', 'v': r.choice([0, -1, 2 ** 40, 7])}
        elif x < .8:
            d[k] = {'t': 'float', 'v': r.choice([0.1, -1.5, 1e300, 3.0])}
        else:
            t = r.choice(['int32', 'float32', 'float64', 'uint16', 'bool'])
            d[k] = {'t': t, 'v': [r.randint(0, 1) if t == 'bool' else r.randint(0, 99)
                                  for _ in range(r.choice([1, 2, 3]))]}
    return d


def file_of(r, version=None):
    v = version or r.choice([1, 1, 2, 2, 3])
    scan = [r.choice([1, 2, 2, 3]), r.choice([1, 2, 3, 3, 4])]
    frame = [r.choice([1, 2, 3, 4]), r.choice([1, 2, 3, 5])]
    n, m = math.prod(scan), math.prod(frame)
    p = r.choice([.1, .3, .7, 1])

    def row():
        if r.random() < .15:
            return []
        x = [i for i in range(m) if r.random() < p]
        return r.sample(x, len(x)) if r.random() < .2 else x

    if v == 1:
        ps, rows = list(range(n)), [row() for _ in range(n)]
        if r.random() < .7:
            rows = [x + [r.choice(x) for _ in range(r.choice([0, 1, 2, 4]))] if x else x
                    for x in rows]
            if r.random() < .6:
                rows = [sorted(x) for x in rows]
    elif v == 2:
        k = r.choice([1, n, n, n + 1, 2 * n])
        ps = [r.randrange(n) for _ in range(k)]
        if r.random() < .5:
            ps = list(range(n)) + [r.randrange(n) for _ in range(r.choice([0, 1, n]))]
        if r.random() < .3:
            ps.sort()
        rows = [row() for _ in ps]
    else:
        k = r.choice([1, 2, 3])
        ps, rows = list(range(n)), [row() for _ in range(n * k)]
    return {'version': v, 'unversioned': r.random() < .5, 'scan': scan, 'frame': frame,
            'positions': ps, 'frames': rows, 'ptype': r.choice(['int64', 'uint32', 'uint64'])}


def long_file(r):
    """A file of version 1 in which only a few of many frames have repeated pixels"""
    scan, frame = [r.choice([11, 15]), r.choice([10, 13])], [2, 3]
    rows = [sorted(r.sample(range(6), r.choice([0, 1, 2]))) for _ in range(math.prod(scan))]
    for _ in range(r.choice([1, 1, 3])):
        k = r.choice([-1, -1, 0, r.randrange(-20, 0)])
        rows[k] = [r.randrange(6)] * r.choice([2, 3])
    return {'version': 1, 'unversioned': True, 'scan': scan, 'frame': frame,
            'positions': list(range(len(rows))), 'frames': rows, 'ptype': 'uint32'}


class FileBuilder(Builder):
    def __init__(self, rng, arrays):
        super().__init__(rng, arrays)
        self.files = []

    def write(self, again=False):
        r = self.rng
        # Two dimensions of the scan and of the frames, none of them is empty
        hs = [i + 1 for i, a in enumerate(self.a) if len(a['scan']) == len(a['frame']) == 2
              and all(a['scan'] + a['frame'])]
        if not hs:
            return
        h = hs[-1] if r.random() < .7 else r.choice(hs)
        new = not (again and self.files)
        path = 0 if new else r.randrange(len(self.files))
        self.ops.append({'op': 'Write', 'h': h, 'new': new, 'path': path, 'api': r.random() < .5})
        if new:
            self.files.append(dict(self.a[h - 1], crop=True))

    def make_file(self, of=file_of):
        f = of(self.rng)
        self.ops.append({'op': 'MakeFile', 'file': f, 'metadata': metadata(self.rng)})
        w = f['scan'][1]
        self.files.append({'scan': f['scan'], 'frame': f['frame'],
                           'crop': f['version'] == 3 or any(p % w != w - 1 for p in f['positions'])})

    def load(self, keep=True):
        r = self.rng
        if not self.files:
            self.make_file()
        k = len(self.files) - 1 if r.random() < .7 else r.randrange(len(self.files))
        f = self.files[k]
        keep = keep or f['scan'][1] < 2 or not f['crop']
        o = {'sparse': r.random() < .5, 'allow': r.random() < .5,
             'dtype': r.choice(['uint32', 'float32', 'uint16', 'int64'])}
        op = {'op': 'Load', 'path': k, 'keep': keep, 'api': r.random() < .4,
              'options': o if r.random() < .5 else None}
        self.ops.append(op)
        if op['api'] or not op['options']:
            o = {'sparse': True, 'allow': False}
        scan = f['scan'] if keep else [f['scan'][0], f['scan'][1] - 1]
        self.a.append({'scan': list(scan), 'frame': list(f['frame']), 'sparse': o['sparse'],
                       'allow': o['allow']})

    def do(self, name):
        {'Write': self.write, 'Rewrite': lambda: self.write(True), 'MakeFile': self.make_file,
         'LongFile': lambda: self.make_file(long_file),
         'Load': self.load, 'LoadCrop': lambda: self.load(False)}.get(
             name, lambda: super(FileBuilder, self).do(name))()


def script(rng, names):
    b = FileBuilder(rng, [dict(random_array(rng, scan=[rng.choice([1, 2, 2, 3, 4]) for _ in range(2)]),
                               metadata=metadata(rng), emptymeta=rng.random() < .5)])
    for n in names:
        b.do(n)
    return b.case()


def run(c):
    rng = random.Random(c.seed)
    for x in c.pick(['Quick'], ['Thorough', 'Rows']):
        c.background(c.mc, 'CountFilesMC', f'CountFiles{x}.cfg')
    small = c.build('small')
    scripts = c.gen('GenCalls', c.pick('GenCallsFiles.cfg', 'GenCallsFilesThorough.cfg'))
    cases = [script(rng, s) for s in scripts
             if any(n.startswith('Load') for n in s) for _ in range(c.pick(2, 2))]
    cases += [script(rng, ['MakeFile', rng.choice(['Load', 'LoadCrop']),
                           rng.choice(['Load', 'LoadCrop'])]) for _ in range(c.pick(300, 3000))]
    cases += [script(rng, [rng.choice(['Write', 'Rewrite', 'MakeFile', 'Load', 'LoadCrop', 'Slice',
                                       'BinScansIn', 'BinFrames', 'Reshape', 'Set']) for _ in range(7)])
              for _ in range(c.pick(150, 2000))]
    cases += [script(rng, ['LongFile', rng.choice(['Load', 'LoadCrop'])])
              for _ in range(c.pick(8, 100))]
    c.conform('d_countfiles.py', 'TraceCountFiles', cases, small)
