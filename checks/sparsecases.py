"""Sparse arrays and operations on them. The shapes are tracked to choose operations
that make sense; the expected results are not computed here."""
import math

from p05 import random_selector


def sel_len(s, n):
    """How many elements a selector has (None: a single one), -1 if it is invalid"""
    k, v = s['kind'], s.get('v')
    if k == 'all':
        return n
    if k == 'int':
        return None if -n <= v < n else -1
    if k == 'slice':
        try:
            return len(range(n)[slice(*[x[0] if x else None for x in v])])
        except ValueError:
            return -1
    if k == 'list':
        return len(v) if all(-n <= x < n for x in v) else -1
    return sum(v) if len(v) == n else -1


def part_shape(dims, sels):
    sels = list(sels)
    if sels and sels[0]['kind'] == 'mask2':
        m = sels[0]['v']
        if len(dims) != 2 or len(sels) > 1 or len(m) != dims[0] or any(
                len(r) != dims[1] for r in m):
            return -1
        return [sum(map(sum, m))]
    if len(sels) > len(dims) or any(s['kind'] == 'mask2' for s in sels):
        return -1
    sels += [{'kind': 'all'}] * (len(dims) - len(sels))
    ls = [sel_len(s, n) for s, n in zip(sels, dims)]
    if -1 in ls:
        return -1
    adv = [s['kind'] in ('list', 'mask') for s in sels]
    if len(ls) == 2 and all(adv):
        if ls[0] != ls[1] and 1 not in ls:
            return -1
        return [ls[0] if ls[1] == 1 else ls[1]]
    return [x for x in ls if x is not None]


def unchecked(dims, sels):
    """Numpy does not check the bounds of lists if there is nothing to select"""
    if any(s['kind'] == 'mask2' for s in sels):
        return False
    ls = [sel_len(s, n) for s, n in zip(sels, dims)]
    return -1 in ls and 0 in ls + list(dims)


def adv(sels):
    return any(s['kind'] in ('list', 'mask', 'mask2') for s in sels)


def ambiguous(ss, fs, nscan, nframe):
    """Numpy transposes the result if a slice is between integers and lists; a sparse array
    treats the scan and the frames separately."""
    if not adv(ss) and not adv(fs):
        return False
    ss = list(ss) + [{'kind': 'all'}] * (nscan - len(ss) - (ss[:1] != [] and
                                                            ss[0]['kind'] == 'mask2'))
    fs = list(fs) + [{'kind': 'all'}] * (nframe - len(fs) - (fs[:1] != [] and
                                                             fs[0]['kind'] == 'mask2'))
    kinds = ''.join('s' if s['kind'] in ('all', 'slice') else 'a' for s in ss + fs).strip('s')
    return 's' in kinds


def random_array(rng, *, scan=None, frame=None, frames=None, density=None):
    nd = rng.choice([1, 2, 2, 2])
    scan = scan or [rng.choice([1, 2, 2, 3, 4]) for _ in range(nd)]
    frame = frame or [rng.choice([1, 2, 2, 3, 4, 4, 6]) for _ in range(2)]
    k = frames or rng.choice([1, 1, 1, 2, 3])
    n = frame[0] * frame[1]
    p = density if density is not None else rng.choice([0, .1, .3, .6, .9, 1])
    data = []
    for _ in range(math.prod(scan)):
        fs = []
        for _ in range(k):
            if n > 200:
                f = rng.sample(range(n), rng.randint(0, 8)) + [n - 1] * (rng.random() < .5)
                f = sorted(set(f))
            elif rng.random() < .15:
                f = []
            else:
                f = [i for i in range(n) if rng.random() < p]
            if rng.random() < .2:
                rng.shuffle(f)
            fs.append(f)
        data.append(fs)
    return {'scan': scan, 'frame': frame, 'data': data,
            'dtype': rng.choice(['uint32', 'uint32', 'uint16', 'int64', 'float32', 'uint64']),
            'item': rng.choice(['uint32', 'uint32', 'uint32', 'int64']),
            'sparse': rng.random() < .7, 'allow': rng.random() < .6,
            'flat': rng.random() < .5, 'order': rng.choice('CCF')}


class Builder:
    """Builds a sequence of operations"""

    def __init__(self, rng, arrays):
        self.rng = rng
        self.arrays = arrays
        self.a = [dict(scan=list(a['scan']), frame=list(a['frame']), sparse=a['sparse'],
                       allow=a['allow']) for a in arrays]
        self.ops = []

    def handle(self):
        r = self.rng
        return len(self.a) if r.random() < .6 else r.randint(1, len(self.a))

    def sels(self, dims, kinds):
        r = self.rng
        if len(dims) == 2 and 'mask' in kinds and math.prod(dims) and r.random() < .12:
            m = [[r.randint(0, 1) for _ in range(dims[1])] for _ in range(dims[0])]
            x = r.random()
            if x < .1:
                m = m + m[:1]
            elif x < .2 and dims[0] != dims[1]:
                # As many elements in another shape
                m = [list(c) for c in zip(*m)]
            return [{'kind': 'mask2', 'v': m}]
        return [random_selector(r, n, r.choice(kinds)) for n in dims]

    def slice(self, part='both'):
        r = self.rng
        h = self.handle()
        a = self.a[h - 1]
        basic = ['all', 'int', 'slice', 'slice']
        every = basic + ['list', 'mask']
        for _ in range(50):
            which = r.choice(['scan', 'frame', 'none'])
            if part in ('both', 'scan'):
                ss = self.sels(a['scan'], every if which == 'scan' else basic)
            else:
                ss = [{'kind': 'all'} for _ in a['scan']]
            if part in ('both', 'frame'):
                fs = self.sels(a['frame'], every if which == 'frame' or r.random() < .1
                               else basic)
            else:
                fs = [{'kind': 'all'} for _ in a['frame']]
            if any(s['kind'] == 'list' and not s['v'] for s in ss + fs):
                continue
            if any(unchecked(d, x) for d, x in ((a['scan'], ss), (a['frame'], fs))):
                continue
            if not ambiguous(ss, fs, len(a['scan']), len(a['frame'])):
                break
        else:
            ss = [{'kind': 'all'} for _ in a['scan']]
            fs = [{'kind': 'all'} for _ in a['frame']]
        op = {'op': 'Slice', 'h': h, 'np': r.random() < .4, 'bare': r.random() < .7}
        # Trailing full slices can be left out; an ellipsis stands for some of them
        if r.random() < .5:
            while fs and fs[-1] == {'kind': 'all'}:
                fs = fs[:-1]
            while not fs and ss and ss[-1] == {'kind': 'all'}:
                ss = ss[:-1]
        full = (len(ss) + any(s['kind'] == 'mask2' for s in ss) == len(a['scan']))
        ell = None
        if r.random() < .2:
            # Right after ss, which may lack some dimensions of the scan, and before all
            # of the selectors of the frame
            k = len(ss)
            while k and ss[k - 1] == {'kind': 'all'}:
                k -= 1
            if len(fs) + any(s['kind'] == 'mask2' for s in fs) == len(a['frame']) or not fs:
                ss, ell = ss[:k], k
                full = True
        if fs and not full:
            fs = []
        if len(fs) + any(s['kind'] == 'mask2' for s in fs) == len(a['frame']) and \
                ell is None and len(a['frame']) == 2 and r.random() < .02:
            fs = fs + [{'kind': 'all'}]     # too many
        op.update(ss=ss, fs=fs, ell=ell)
        self.ops.append(op)
        s, f = part_shape(a['scan'], ss), part_shape(a['frame'], fs)
        if s == -1 or f == -1 or (adv(ss) and adv(fs)):
            return
        if a['sparse'] and s and f:
            self.a.append(dict(a, scan=s, frame=f))

    def bin(self, what, inplace):
        r = self.rng
        hs = [i + 1 for i, a in enumerate(self.a)
              if what == 'scans' or len(a['frame']) == 2 and math.prod(a['frame'])
              and math.prod(a['scan'])]
        if not hs:
            return
        good = [h for h in hs if all(x % 2 == 0 for x in self.a[h - 1][what[:-1]])]
        h = r.choice(good if good and r.random() < .8 else hs)
        a = self.a[h - 1]
        dims = a[what[:-1]]
        if not math.prod(a['scan']):
            return
        ks = [k for k in range(1, 9) if all(x % k == 0 for x in dims)]
        k = r.choice([x for x in ks if x > 1] or ks) if r.random() < .85 else r.choice([2, 3, 5])
        self.ops.append({'op': 'Bin', 'h': h, 'what': what, 'factor': k, 'inplace': inplace})
        if any(x % k for x in dims):
            return
        new = dict(a)
        new[what[:-1]] = [x // k for x in dims]
        if inplace:
            self.a[h - 1] = new
        else:
            self.a.append(new)

    def reduce(self, part=None):
        r = self.rng
        hs = [i + 1 for i, a in enumerate(self.a) if math.prod(a['scan']) and
              math.prod(a['frame'])]
        if not hs:
            return
        h = r.choice(hs)
        a = self.a[h - 1]
        n = len(a['scan']) + len(a['frame'])
        k = part or r.choice(['scan', 'frame', 'scan', 'frame', 'all', 'some', 'some'])
        x = {'kind': k}
        if k == 'some':
            x['v'] = r.sample(range(n), r.randint(1, n))
            if r.random() < .3:
                x['v'] = list(range(len(a['scan'])))
            elif r.random() < .3:
                x['v'] = list(range(len(a['scan']), n))[::-1]
            if a['allow'] and r.random() < .3:
                x['v'] = [v - n if r.random() < .5 else v for v in x['v']]
            if r.random() < .05:
                x['v'] = x['v'][:1] + [n]
                if x['v'][0] == n:
                    x['v'] = [n]
        what = r.choice(['sum', 'max', 'min', 'mean'])
        special = k in ('scan', 'frame')
        dt = ''
        if special and r.random() < .3:
            dt = r.choice(['float32', 'float64'] if what == 'mean' else
                          ['uint16', 'uint32', 'int64', 'float32', 'float64'])
        self.ops.append({'op': 'Reduce', 'h': h, 'what': what, 'axis': x, 'dtype': dt,
                         'bare': r.random() < .5, 'np': r.random() < .4})

    def reshape(self):
        r = self.rng
        hs = [i + 1 for i, a in enumerate(self.a) if len(a['frame']) == 2]
        if not hs:
            return
        h = r.choice(hs)
        a = self.a[h - 1]

        def factor(n):
            ks = [k for k in range(1, n + 1) if n % k == 0] or [0]
            k = r.choice(ks)
            return [k, n // k if k else 1]

        n, m = math.prod(a['scan']), math.prod(a['frame'])
        shape = ([n] if r.random() < .3 else factor(n)) + factor(m)
        if r.random() < .15:
            shape = r.choice([shape[:2], shape + [1], [shape[0] + 1] + shape[1:],
                              shape[:-1] + [shape[-1] + 1], shape[:-1]])
        self.ops.append({'op': 'Reshape', 'h': h, 'shape': shape,
                         'via': r.choice(['setter', 'tuple', 'args'])})
        if len(shape) in (3, 4) and math.prod(shape[:-2]) == n and math.prod(shape[-2:]) == m:
            self.a[h - 1] = dict(a, scan=shape[:-2], frame=shape[-2:])

    def ravel(self):
        hs = [i + 1 for i, a in enumerate(self.a) if len(a['frame']) == 2]
        if not hs:
            return
        h = self.rng.choice(hs)
        self.ops.append({'op': 'Ravel', 'h': h})
        a = self.a[h - 1]
        self.a[h - 1] = dict(a, scan=[math.prod(a['scan'])])

    def set(self):
        h = self.handle()
        s, al = self.rng.random() < .5, self.rng.random() < .5
        self.ops.append({'op': 'Set', 'h': h, 'sparse': s, 'allow': al})
        self.a[h - 1] = dict(self.a[h - 1], sparse=s, allow=al)

    def poke(self):
        self.ops.append({'op': 'Poke', 'h': self.handle()})

    def do(self, name):
        {'Poke': self.poke, 'Slice': self.slice, 'SliceScan': lambda: self.slice('scan'),
         'SliceFrame': lambda: self.slice('frame'),
         'BinScans': lambda: self.bin('scans', False),
         'BinScansIn': lambda: self.bin('scans', True),
         'BinFrames': lambda: self.bin('frames', False),
         'BinFramesIn': lambda: self.bin('frames', True),
         'Reduce': self.reduce, 'ReduceScan': lambda: self.reduce('scan'),
         'ReduceFrame': lambda: self.reduce('frame'),
         'Reshape': self.reshape, 'Ravel': self.ravel, 'Set': self.set}[name]()

    def case(self, observe=True):
        ops = self.ops
        if observe:
            ops = ops + [{'op': 'Observe'}]
        return {'arrays': self.arrays, 'ops': ops}


def script_case(rng, names, **kw):
    b = Builder(rng, [random_array(rng, **kw)])
    for n in names:
        b.do(n)
    return b.case()
