"""Images computed from readers, arrays, files and sparse data; see TraceImages.

case: {kind, dims: [w, h], scan: [w, h], frames: [{pos, px | lin | ev}], blocks, sched, ...}
"""
import math
import os
from collections import namedtuple

import h5py
import numpy as np

import common
import fmt
import sched
import sectors

READERS = ('v1', 'v3', 'py', 'sector')


def pixels(f, dims):
    if 'px' in f:
        a = np.array(f['px'], dtype='<u2')
    else:
        a, b, m = f['lin']
        a = ((a * np.arange(dims[0] * dims[1], dtype=np.int64) + b) % m).astype('<u2')
    return a.reshape(dims[1], dims[0])


def pairs(a):
    return [[int(v) // 256, int(v) % 256] for v in np.asarray(a).ravel()]


class Run:
    def __init__(self, case, t, d):
        self.c, self.t, self.d = case, t, d
        self.kind = case['kind']

    def emit_source(self, dims, scan, frames, blocks=()):
        self.t.emit('Source', kind={'h5': 'h5', 'array': 'array', 'sparse1': 'sparse',
                                    'tuple1': 'tuple'}.get(self.kind, self.kind),
                    dims=list(dims), scan=list(scan), frames=frames, blocks=list(blocks))

    def make(self):
        """The input of the functions, and its event"""
        from stempy import io
        c, k = self.c, self.kind
        dims, scan, frames = c['dims'], c['scan'], c['frames']
        source = frames
        if any('times' in f for f in frames):
            # One of each, then again
            most = max(f['times'] for f in frames)
            frames = [f for k in range(most) for f in frames if k < f['times']]
        p = os.path.join(self.d, 'x.dat')
        if k in ('sparsearray', 'tuple', 'tuple1', 'sparse', 'sparse1'):
            n = scan[0] * scan[1]
            per = max(1, len(frames) // n)
            data = np.empty((n, per), dtype=object)
            for i in range(n):
                for j in range(per):
                    data[i, j] = self.events(frames[i * per + j]['ev'])
            if k in ('tuple1', 'sparse1'):
                data = data[:, 0].copy()
            if k == 'sparsearray':
                data = io.SparseArray(data, tuple(scan[::-1]), tuple(dims[::-1]))
            elif k in ('tuple', 'tuple1'):
                T = namedtuple('ElectronCountedData',
                               ['data', 'scan_dimensions', 'frame_dimensions'])
                data = T(data, tuple(scan), tuple(dims))
            self.emit_source(dims, scan, frames)
            return data
        if k == 'counted':
            return self.counted()
        a = [pixels(f, dims) for f in frames]
        numbers = [f['pos'] for f in frames]
        blocks = c['blocks']
        if k == 'v1':
            out, i = [], 0
            for n in blocks:
                out.append(fmt.v1_block([x + 1 for x in numbers[i:i + n]], np.stack(a[i:i + n])))
                i += n
            open(p, 'wb').write(b''.join(out))
            x = io.reader(p, version=1)
            scan = [0, 0]
        elif k == 'v3':
            open(p, 'wb').write(b''.join(
                fmt.v3_block(1, i, scan, (n % scan[0], n // scan[0]), f)
                for i, (n, f) in enumerate(zip(numbers, a))))
            x = io.reader(p, version=3)
        elif k == 'py':
            x = io.PyReader(np.stack(a), numbers, tuple(scan), c['block'], len(a))
        elif k == 'array':
            x = np.stack(a)
            if c.get('layout') == 'F':
                x = np.asfortranarray(x)
        elif k == 'h5':
            io.save_raw_data(p, np.stack(a), scan_dimensions=scan,
                             **({'scan_positions': numbers} if c['positions'] else {}))
            x = self.file = h5py.File(p, 'r')
        else:
            v = c['version']
            files = [{'sector': s, 'bytes': 1 << 30, 'records': []} for s in range(4)]
            order = c['order']
            for s in range(4):
                for i in order[s]:
                    n = numbers[i]
                    files[s]['records'].append({'frame': i + 1, 'x': n % scan[0],
                                                'y': n // scan[0], 'tag': i})
                    if 'lost' in frames[i] and s in frames[i]['lost']:
                        files[s]['records'].pop()
            case = {'version': v, 'size': dims[0], 'scan': scan, 'files': files}
            paths = sectors.write(case, self.d, None,
                                  lambda r, s: fmt.sector_of(a[r['tag']], s, v))
            x = io.reader(paths, version=v)
            frames = []
            for i, f in enumerate(source):
                if not f.get('lost'):
                    frames.append(f)
                    continue
                b = a[i].copy()
                for s in f['lost']:
                    fmt.sector_of(b, s, v)[:] = 0
                if len(f['lost']) < 4:
                    frames.append({'pos': f['pos'], 'px': common.ints(b.ravel())})
            source = frames
            blocks = [len(frames)] if frames else []
        self.emit_source(dims, scan, source, blocks)
        return x

    def events(self, ev):
        k = self.c['items']
        if k == 'strided':
            b = np.full(3 * len(ev), 7, dtype='uint32')
            b[::3] = ev
            return b[::3]
        if k == 'reversed':
            return np.array(ev[::-1], dtype='uint32')[::-1]
        return np.array(ev, dtype=k)

    def counted(self):
        """The result of electron_count"""
        from stempy import image, io
        c = self.c
        w, h = c['dims']
        n = c['scan'][0] * c['scan'][1]
        r = np.random.RandomState(c['seed'])
        a = r.normal(40, 2, (n, h, w)).clip(1, 100).astype('<u2')
        for x in range(n):
            for i in r.randint(0, h * w, r.randint(0, 6)):
                a[x, i // w, i % w] = r.randint(55, 59)
        with open(os.devnull, 'w') as null:
            import contextlib
            with contextlib.redirect_stdout(null):
                got, err = common.attempt(
                    image.electron_count,
                    io.PyReader(a, np.arange(n), tuple(c['scan']), 32, n),
                    darkreference=np.zeros((h, w)), number_of_samples=10)
        if err:
            assert err == 'RuntimeError'
            return None
        self.emit_array(got)
        return got

    def emit_array(self, a):
        frames = [{'pos': i, 'ev': common.ints(f)} for i, fs in enumerate(a.data) for f in fs]
        self.emit_source(a.frame_shape[::-1], a.scan_shape[::-1], frames)

    def change(self, op, x):
        """Another sparse array, or a change of this one"""
        k, f = op['what'], op['factor']
        if k == 'bin_frames':
            x = x.bin_frames(f, in_place=op['inplace'])
        elif k == 'bin_scans':
            x = x.bin_scans(f, in_place=op['inplace'])
        elif k == 'slice':
            x.sparse_slicing = True
            x = x[op['a'][0]::op['a'][1], op['b'][0]::op['b'][1]]
        elif k == 'crop':
            x.sparse_slicing = True
            x = x[:, :, op['a'][0]::op['a'][1], op['b'][0]::op['b'][1]]
        elif k == 'reshape':
            x.shape = (x.scan_shape[1], x.scan_shape[0]) + tuple(x.frame_shape[::-1])
        elif k == 'data':
            # Even directly
            for i in range(len(x.data)):
                x.data[i, 0] = x.data[i, 0][::2].copy()
        elif k == 'newdata':
            d = x.data.copy()
            d[0, 0] = np.array([0], dtype=np.uint32)
            x.data = d
        self.emit_array(x)
        return x

    def function(self, op, x):
        from stempy import image
        o, t = op['op'], self.t
        kw = {}
        arg = {'scan': op.get('scan') or [0, 0], 'center': op.get('center') or [-1, -1]}
        if op.get('scan') or self.kind in ('array', 'sparse', 'sparse1'):
            kw['scan_dimensions'] = tuple(op.get('scan') or (0, 0))
        if op.get('center'):
            kw['center'] = tuple(op['center'])
        if o in ('Stem', 'Histogram'):
            arg.update(inner=op['inner'], outer=op['outer'])
            radii = [op['inner'], op['outer']]
            if o == 'Stem' and op['plain'] and len(op['inner']) == len(op['outer']) == 1:
                radii = [op['inner'][0], op['outer'][0]]
            elif op['plain']:
                radii = [tuple(y) for y in radii]
        if o == 'Stem':
            if self.kind in ('sparse', 'sparse1'):
                kw['frame_dimensions'] = tuple(self.c['dims'])
            got, err = common.attempt(image.create_stem_images, x, *radii, **kw)
            if err:
                t.emit(o, **arg, out={'kind': 'Error', 'exception': err})
                return
            if self.kind in ('sparsearray', 'counted', 'tuple', 'tuple1', 'sparse', 'sparse1'):
                images = [[int(v) // 65535 if v % 65535 == 0 else -1 for v in y.ravel()]
                          for y in got]
            else:
                images = [pairs(y) for y in got]
            t.emit(o, **arg, out={'kind': 'Value', 'shape': common.ints(got.shape),
                                  'dtype': got.dtype.name, 'images': images})
        elif o == 'RadialSum':
            got, err = common.attempt(image.radial_sum, x, **kw)
            if err:
                t.emit(o, **arg, out={'kind': 'Error', 'exception': err})
                return
            flat = got.reshape(got.shape[0], -1)
            nz = [[int(r), int(p), [int(flat[r, p]) // 256, int(flat[r, p]) % 256]]
                  for r, p in zip(*np.nonzero(flat))]
            t.emit(o, **arg, out={'kind': 'Value', 'shape': common.ints(got.shape),
                                  'dtype': got.dtype.name, 'nz': nz})
        elif o in ('Average', 'Maximum'):
            if o == 'Average':
                got, err = common.attempt(image.calculate_average, x)
            elif op['dark'] == 'average':
                from stempy.io import PyReader
                w, h = self.c['dims']
                if op.get('derived') in ('larger', 'smaller', 'transposed'):
                    w, h = {'larger': (w + 1, h), 'smaller': (w, max(1, h // 2)),
                            'transposed': (h, w)}[op['derived']]
                two = np.stack([pixels({'lin': v}, (w, h)) for v in op['lins']])
                dark = image.calculate_average(PyReader(two, [0, 0], (1, 1), 1, 2))
                dark = self.derived(dark, op.get('derived'))
                arg['shape'] = common.ints(dark.shape)
                arg['dark'] = common.ints(np.floor(np.asarray(dark) * 64).ravel())
                got, err = common.attempt(image.maximum_diffraction_pattern, x, dark)
            else:
                arg['dark'], arg['shape'] = [], []
                got, err = common.attempt(image.maximum_diffraction_pattern, x)
            if err:
                t.emit(o, **arg, out={'kind': 'Error', 'exception': err})
                return
            t.emit(o, **arg, out={'kind': 'Value', 'shape': common.ints(got.shape),
                                  'image': common.ints(np.floor(np.asarray(got) * 64).ravel())})
        elif o == 'Histogram':
            arg['bins'] = op['bins']
            got, err = common.attempt(image.create_stem_histogram, op['bins'], x, *radii, **kw)
            if err:
                t.emit(o, **arg, out={'kind': 'Error', 'exception': err})
                return
            bins, freqs = got
            # Not larger than the integers of TLC
            n = op['bins']
            top = max(1, max(abs(v) for b in bins for v in b))
            scale = max([s for s in (1, 2, 4, 16) if top * s * n < 1 << 30], default=0)
            limit = (1 << 30) // n
            t.emit(o, **arg, out={
                'kind': 'Value', 'scale': scale,
                'ceils': [[max(-limit, min(limit, math.ceil(v))) for v in b] for b in bins],
                'floors': [[max(-limit, min(limit, math.floor(scale * v))) for v in b]
                           for b in bins],
                'freqs': [common.ints(f) for f in freqs]})
        else:
            raise ValueError(o)

    @staticmethod
    def derived(x, how):
        """Another array from an average image"""
        if how == 'twice':
            return x * 2
        if how == 'half':
            return np.multiply(x, .5)
        if how == 'inplace':
            x -= 1
            x[0, 0] = 3
        elif how == 'copy':
            y = x.copy()
            y[-1] = 7
            return y
        elif how == 'changed':
            y = x.copy()
            x[:] = 1
            return y
        elif how == 'turned':
            return x[::-1, ::-1]
        elif how == 'plain':
            return np.asfortranarray(np.asarray(x)).astype(np.float32)
        elif how == 'padded':
            return np.pad(x, 1).view(type(x))
        elif how == 'part':
            return x[:-1] if len(x) > 2 else np.concatenate([x, x, x])
        return x

    def run(self):
        self.t.emit('New')
        self.file = None
        x = self.make()
        if x is None:
            return
        for op in self.c['ops']:
            if op['op'] == 'Read':
                if self.kind not in ('v1', 'v3', 'py'):
                    continue
                b = x.read()
                self.t.emit('Read', images=int(b.header.images_in_block) if b else 0)
            elif op['op'] == 'Reset':
                if self.kind in READERS:
                    x.reset()
                    self.t.emit('Reset')
            elif op['op'] == 'Change':
                x = self.change(op, x)
            else:
                sched.perturb(self.c.get('sched'))
                self.function(op, x)
                sched.calm()
        if self.file:
            self.file.close()


if __name__ == '__main__':
    common.main(lambda case, t, d: Run(case, t, d).run())
