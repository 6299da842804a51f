"""P14: raw frames in HDF5 files and PyReader."""
import random

from sectorcases import concretize, random_layout


class Ops:
    def __init__(self, rng, case):
        self.r, self.case, self.ops, self.tag = rng, case, [], 100000

    def path(self, new=.5):
        return None if self.r.random() < new else self.r.choice([-1, -1, self.r.randrange(10)])

    def frames(self, n):
        self.tag += n
        out = list(range(self.tag - n, self.tag))
        if self.r.random() < .2 and n:
            out[self.r.randrange(n)] = 0
        return out

    def stem_shape(self, scan):
        return [self.r.choice([1, 2]), scan[1], scan[0]]

    def data(self, most):
        r = self.r
        n = r.choice([1, 2, 3, 5, 31, 32, 33, 64, 65, 70] if most > 20 else [1, 2, 3, 4, 6])
        if r.random() < .5:
            w = r.choice([k for k in range(1, n + 1) if n % k == 0])
            scan = [w, n // w]
        else:
            scan = [r.randint(1, 9), r.randint(1, 9)]
        ps = []
        if r.random() < .5:
            ps = [r.randrange(scan[0] * scan[1]) for _ in range(n)]
        return {'shape': r.choice([[2, 3], [4, 4], [3, 2], [5, 2], [8, 8], [4, 1]]),
                'frames': self.frames(n), 'scan': scan, 'positions': ps,
                'dtype': r.choice(['uint16'] * 4 + ['uint32', 'int64', 'float32', 'uint8', '>u2']),
                'layout': r.choice(['C', 'C', 'F', 'strided', 'reversed'])}

    def do(self, name, most=70):
        r = self.r
        if name in ('Read', 'Iter', 'Reset'):
            o = {'h': r.choice([-1, -1, -1, r.randrange(10)])}
        elif name in ('SectorRead', 'SectorReset'):
            o = {}
        elif name in ('Convert', 'BadPath'):
            o = {'path': self.path(.7), 'format': r.choice(['Frame', 'Frame', 'DataCube']),
                 'api': r.choice(['function', 'method']), 'short': r.random() < .5}
        elif name == 'Save':
            o = dict(self.data(most), path=self.path(.7), zip=r.random() < .3,
                     plist=r.random() < .5, ptype=r.choice(['int64', 'uint32', 'uint16', 'int32']))
            if o['dtype'] == '>u2':
                o['dtype'] = 'uint16'
            if r.random() < .2:
                # An older file
                scan, o['scan'], o['path'] = o['scan'], [], None
                self.ops.append(dict(o, op='Save'))
                name, o = 'SaveStem', self.stem(scan)
                o['path'] = -1
        elif name == 'SaveStem':
            o = self.stem([r.randint(1, 4), r.randint(1, 4)])
        elif name == 'Make':
            o = self.data(most)
            n = len(o['frames'])
            o['size'] = r.choice([1, 2, 3, 7, 32, 100])
            o['total'] = n if r.random() < .8 else r.randint(0, n)
            if not o['positions'] or r.random() < .3:
                o['positions'] = [r.randrange(1 << 20) for _ in range(n + r.randint(0, 2))]
        else:
            o = {'path': r.choice([-1, -1, -1, r.randrange(10)])}
        self.ops.append(dict(o, op=name))

    def stem(self, scan):
        r = self.r
        s = self.stem_shape(scan)
        n = s[0] if r.random() < .85 else s[0] + r.choice([-1, 1])
        return {'path': self.path(), 'shape': s, 'dtype': r.choice(['uint64', 'float64', 'int32']),
                'names': r.sample(['bright', 'dark', 'x', 'ä', ''], n)}


def source(rng, *, size=8, frames=6, empty=False):
    scan = [rng.randint(1, 4), rng.randint(1, 4)]
    if rng.random() < .05:
        scan = rng.choice([[300, 2], [1, 260]])
    nf = 0 if empty else rng.randint(1, frames)
    lay = [] if empty else random_layout(rng, nf, rng.choice([1, 1, 2]), rng.choice([0, .05, .3]),
                                         rng.choice(['sorted', 'near', 'shuffled']))
    return concretize(rng, lay, version=rng.choice([4, 5]), size=size, scan=scan)


def run(c):
    rng = random.Random(c.seed)
    c.background(c.mc, 'RawFilesMC', c.pick('RawFilesQuick.cfg', 'RawFilesThorough.cfg'))
    small = c.build('small')
    scripts = c.gen('GenCalls', c.pick('GenCallsRaw.cfg', 'GenCallsRawThorough.cfg'))
    cases = []

    def add(names, **kw):
        case = source(rng, empty=rng.random() < .2 and 'Convert' not in names, **kw)
        o = Ops(rng, case)
        for x in names:
            o.do(x, c.pick(70, 70) if rng.random() < .4 else 6)
        case['ops'] = o.ops
        cases.append(case)

    for s in scripts:
        if s[0] not in ('Read', 'Reset', 'Open'):
            add(s)
    # Reading until the end
    for k in range(c.pick(150, 2000)):
        add([rng.choice(['Make', 'Save'])] + ['Open'] * rng.choice([1, 2]) +
            [rng.choice(['Read'] * 5 + ['Iter'] * 3 + ['Reset']) for _ in range(9)])
    # Conversions
    for k in range(c.pick(200, 3000)):
        add([rng.choice(['SectorRead', 'SectorRead', 'SectorReset']) for _ in range(rng.choice([0, 0, 1, 3]))] +
            ['Convert'] + ['SectorReset'] * rng.choice([0, 1]) +
            [rng.choice(['Convert', 'Convert', 'SectorRead', 'Save', 'SaveStem', 'Open', 'Read', 'Iter', 'Reset'])
             for _ in range(rng.randint(0, 6))] + ['BadPath'] * (rng.random() < .1),
            frames=rng.choice([3, 8, 20]))
    c.conform('d_rawfiles.py', 'TraceRawFiles', cases, small)
    cases = []
    for k in range(c.pick(6, 30)):
        add(['Convert', 'Open', 'Read', 'Iter', 'SectorReset', 'Convert'], size=576, frames=5)
        cases[-1]['scan'][:] = [rng.randint(1, 3) for _ in range(2)]
        for f in cases[-1]['files']:
            for r in f['records']:
                r['x'], r['y'] = r['frame'] % cases[-1]['scan'][0], 0
    full = c.build('full')
    c.conform('d_rawfiles.py', 'TraceRawFiles', cases, full)
