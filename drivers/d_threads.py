"""Several Python threads; see Threads.

case: {mode: "parts", driver, parts: [case, ...]}
    each thread executes a case of another driver; afterwards their events are
    recorded one case after the other, as if they had been executed alone
case: {mode: "shared", inputs: [...], threads: [[call, ...], ...]}: see Shared
"""
import contextlib
import gc
import importlib
import io
import itertools
import os
import sys
import threading
import warnings

import numpy as np

import common
import fmt


class Collect:
    """A trace that is kept"""

    def __init__(self):
        self.events = []

    def emit(self, ev, **kw):
        self.events.append(dict(ev=ev, **kw))


class Out(io.TextIOBase):
    """What is printed goes to the file of the thread, if it has one"""
    local = threading.local()

    def write(self, s):
        f = getattr(self.local, 'file', None)
        if f is not None:
            f.write(s)
        return len(s)


@contextlib.contextmanager
def redirect(f):
    before = getattr(Out.local, 'file', None)
    Out.local.file = f
    try:
        yield f
    finally:
        Out.local.file = before


contextlib.redirect_stdout = redirect


class Churn(threading.Thread):
    """Python code that makes and drops objects, while others compute"""

    def __init__(self):
        super().__init__(daemon=True)
        self.stop = False

    def run(self):
        while not self.stop:
            x = [np.zeros(17, dtype='uint32') for _ in range(50)]
            y = {i: (i, str(i)) for i in range(50)}
            del x, y


def together(jobs):
    """Runs the functions, each in a thread of its own; their exceptions"""
    barrier = threading.Barrier(len(jobs))
    errors = [None] * len(jobs)

    def work(k):
        barrier.wait()
        try:
            jobs[k]()
        except BaseException as e:  # noqa: BLE001
            errors[k] = e

    churn = Churn()
    churn.start()
    ts = [threading.Thread(target=work, args=(k,)) for k in range(len(jobs))]
    for x in ts:
        x.start()
    for x in ts:
        x.join()
    churn.stop = True
    churn.join()
    return errors


def parts(case, t, d):
    m = importlib.import_module(case['driver'])
    run = m.run if hasattr(m, 'run') else (lambda c, t, d: m.Run(c, t, d).run())
    traces = [Collect() for _ in case['parts']]

    def job(k):
        p = os.path.join(d, str(k))
        os.mkdir(p)
        run(case['parts'][k], traces[k], p)

    errors = together([lambda k=k: job(k) for k in range(len(case['parts']))])
    for x in traces:
        for e in x.events:
            e = dict(e)
            t.emit(e.pop('ev'), **e)
    for e in errors:
        if e is not None:
            raise e


class Shared:
    """Inputs that several threads use, and the calls.

    case: {seed, dims, scan, frames, density, mean, calls: [name, ...], threads: [[k, ...], ...]}
    """

    def __init__(self, case, d):
        import h5py
        from stempy import image
        from stempy import io as sio
        self.d, self.made = d, itertools.count()
        r = np.random.RandomState(case['seed'])
        self.r = r
        self.scan, (w, h) = tuple(case['scan']), case['dims']
        n = self.scan[0] * self.scan[1]
        self.n, self.shape = n, (h, w)
        self.frames = r.normal(case['mean'], 4, (n, h, w)).clip(1, 60000).astype('<u2')
        self.frames[r.rand(n, h, w) < .05] += 60
        self.frames64 = self.frames.astype('int64')
        self.positions = np.arange(n)
        self.dark = r.randint(0, 3, (h, w)).astype('float32')
        self.dark64 = self.dark.astype('float64')
        self.gain = np.ones((h, w), dtype='float32')
        self.gain64 = np.full((h, w), 2.)
        self.average = image.calculate_average(self.reader())
        # One that is exact
        self.even = image.calculate_average(sio.PyReader(
            np.stack([self.dark, self.dark]).astype('<u2'), [0, 1], (2, 1), 2, 2))
        self.v3 = os.path.join(d, 'v3.dat')
        eight = r.randint(0, 60000, (n, 8, 8)).astype('<u2')
        with open(self.v3, 'wb') as f:
            for i in range(n):
                f.write(fmt.v3_block(1, i, self.scan, (i % self.scan[0], i // self.scan[0]),
                                     eight[i]))
        data = np.empty((n, case['frames']), dtype=object)
        for i in range(n):
            for j in range(case['frames']):
                data[i, j] = np.flatnonzero(r.rand(h * w) < case['density']).astype('uint32')
        self.sparse = sio.SparseArray(data, self.scan[::-1], (h, w))
        self.counted = self.classic(self.dark, self.gain)
        self.blocks = [b._block for b in [self.reader().read()]]
        sio.save_raw_data(os.path.join(d, 'raw.h5'), self.frames, scan_dimensions=self.scan)
        sio.save_electron_counts(os.path.join(d, 'counts.h5'), self.sparse)
        self.h5py = h5py
        self.com = np.ascontiguousarray(r.rand(2, 8, 8))
        self.mask = (r.rand(*self.scan[::-1]) < .5)

    def inputs(self):
        a = [self.frames, self.frames64, self.positions, self.dark, self.dark64, self.gain,
             self.gain64, self.average, self.even, self.sparse.data, self.com, self.mask]
        a += [f for fs in self.sparse.data for f in fs]
        a += [f for fs in self.counted.data for f in fs]
        return a

    def state(self, names):
        return [[sys.getrefcount(x), names.of(x)] for x in self.inputs()]

    def reader(self, frames=None):
        from stempy import io as sio
        return sio.PyReader(self.frames if frames is None else frames, self.positions,
                            self.scan, 3, self.n)

    def classic(self, dark, gain, reader=None, rows=None):
        from stempy import image
        c = image._image.ElectronCountOptionsClassic()
        if rows:
            c.apply_row_dark_subtraction = True
            c.apply_row_dark_use_mean = rows == 'mean'
        c.dark_reference, c.gain = dark, gain
        c.background_threshold, c.x_ray_threshold = 30., 1000.
        c.scan_dimensions = self.scan
        r = reader or self.reader()
        return image._image.electron_count(r.begin(), r.end(), c)

    def call(self, name):
        """A function of the modules; all of them are deterministic"""
        from stempy import image
        from stempy import io as sio
        s, c = self.sparse, (self.shape[1] // 2, self.shape[0] // 2)
        p = os.path.join(self.d, 'out%d.h5' % next(self.made))

        def v3():
            return sio.reader(self.v3, version=3)

        def counted(x):
            return [list(x.scan_dimensions), list(x.frame_dimensions),
                    [[np.array(f) for f in fs] for fs in x.data]]

        def thresholds(*a):
            # Of random samples
            x = image._image.calculate_thresholds(self.blocks, *a)
            return int(x.number_of_samples)

        def saved():
            sio.save_electron_counts(p, s)
            x = sio.load_electron_counts(p)
            return [list(x.scan_shape), [f for fs in x.data for f in fs]]

        def raw():
            with self.h5py.File(os.path.join(self.d, 'raw.h5'), 'r') as f:
                return image.create_stem_images(f, [0, 2], [3, 9])

        def count(reader, **kw):
            try:
                a = image.electron_count(reader, number_of_samples=3, scan_dimensions=self.scan,
                                         **kw)
                return list(a.scan_shape) + list(a.frame_shape)
            except RuntimeError:
                # The fit of the samples
                return list(self.scan[::-1]) + list(self.shape)

        return {
            'stem array': lambda: image.create_stem_images(self.frames, [0, 1], [3, 4],
                                                           scan_dimensions=self.scan),
            'stem wide array': lambda: image.create_stem_images(self.frames64, 0, 3,
                                                                scan_dimensions=self.scan),
            'stem reader': lambda: image.create_stem_images(self.reader(), [0, 1], [3, 4]),
            'stem converted': lambda: image.create_stem_images(self.reader(self.frames64), 0, 4),
            'stem file': lambda: image.create_stem_images(v3(), 1, 4),
            'stem sparse': lambda: image.create_stem_images(s, [0, 2], [3, 9]),
            'stem list': lambda: image.create_stem_images(s.data, 0, 5, scan_dimensions=self.scan,
                                                          frame_dimensions=self.shape[::-1]),
            'stem counted': lambda: [np.array(x) for x in image._image.create_stem_images(
                self.counted, [0, 1], [3, 9], (-1, -1))],
            'stem raw': raw,
            'radial sum': lambda: image.radial_sum(self.reader()),
            'radial sum file': lambda: image.radial_sum(v3()),
            'average': lambda: np.asarray(image.calculate_average(self.reader())),
            'maximum': lambda: image.maximum_diffraction_pattern(self.reader()),
            'maximum dark': lambda: image.maximum_diffraction_pattern(self.reader(), self.average),
            'histogram': lambda: [list(x) for x in image.create_stem_histogram(
                7, self.reader(), [0, 1], [3, 4])],
            'count': lambda: counted(self.classic(self.dark, self.gain)),
            'count converted': lambda: counted(self.classic(self.dark64, self.gain64)),
            'count rows': lambda: counted(self.classic(self.dark, self.gain, rows='median')),
            'count rows mean': lambda: counted(self.classic(self.dark, self.gain, rows='mean')),
            'count file': lambda: counted(self.classic(np.zeros((8, 8)), np.ones((8, 8)), v3())),
            'count samples': lambda: count(self.reader(), darkreference=self.dark64),
            'count average': lambda: count(self.reader(), darkreference=self.even,
                                           gain=self.gain64),
            'thresholds': lambda: thresholds(self.dark, 3, 4., 10.),
            'thresholds gain': lambda: thresholds(self.dark, 3, 4., 10., self.gain),
            'thresholds converted': lambda: thresholds(self.dark64, 3, 4., 10., self.gain64),
            'thresholds gain only': lambda: thresholds(3, 4., 10., self.gain),
            'thresholds gain converted': lambda: thresholds(3, 4., 10., self.gain64),
            'thresholds only': lambda: thresholds(3, 4., 10.),
            'com': lambda: image.com_sparse(s, version=1),
            'com v0': lambda: image.com_sparse(s, version=0),
            'com dense': lambda: image.com_dense(self.frames),
            'radial sum sparse': lambda: image.radial_sum_sparse(s, c),
            'sum sparse': lambda: image.calculate_sum_sparse(s.data, self.shape),
            'dark field': lambda: image.virtual_darkfield(s, [c[0]], [c[1]], [2]),
            'mask': lambda: image.mask_real_space(s, self.mask),
            'phase': lambda: image.phase_from_com(self.com),
            'bin frames': lambda: [f for fs in s.bin_frames(2).data for f in fs],
            'bin scans': lambda: [f for fs in s.bin_scans(2).data for f in fs],
            'slice': lambda: s[0],
            'crop': lambda: s[:, :, 1:3],
            'dense': lambda: s.to_dense(),
            'sum': lambda: s.sum(axis=(0, 1)),
            'max': lambda: s.max(axis=(2, 3)),
            'min': lambda: s.min(axis=(0, 1)),
            'mean': lambda: s.mean(axis=(2, 3)),
            'save': saved,
            'load': lambda: [f for fs in sio.load_electron_counts(
                os.path.join(self.d, 'counts.h5')).data for f in fs],
        }[name]()


class Names:
    """Numbers for results: of their types, shapes and bytes"""

    def __init__(self):
        self.known = {}

    def key(self, x):
        if isinstance(x, np.ndarray):
            if x.dtype == object:
                return (x.shape,) + tuple(self.key(y) for y in x.ravel())
            return (x.dtype.str, x.shape, x.tobytes())
        if isinstance(x, (list, tuple)):
            return tuple(self.key(y) for y in x)
        if hasattr(x, 'frame_shape'):
            return (tuple(x.scan_shape), tuple(x.frame_shape), self.key(x.data))
        return repr(x)

    def of(self, x):
        return self.known.setdefault(self.key(x), len(self.known) + 1)


def shared(case, t, d):
    t.emit('New')
    warnings.simplefilter('ignore')
    s, names = Shared(case, d), Names()
    for name in sorted({x for c in case['threads'] for x in c}):
        for _ in range(2):
            t.emit('Alone', call=name, value=names.of(s.call(name)))
    gc.collect()
    t.emit('Inputs', inputs=s.state(names))
    log = []

    def job(k):
        for name in case['threads'][k]:
            log.append(('Enter', k, name, None))
            x = s.call(name)
            log.append(('Return', k, name, x))
            del x

    errors = together([lambda k=k: job(k) for k in range(len(case['threads']))])
    for ev, k, name, x in log:
        if ev == 'Enter':
            t.emit(ev, thread=k, call=name)
        else:
            t.emit(ev, thread=k, call=name, value=names.of(x))
    x = None
    log.clear()
    for e in errors:
        if e is not None:
            raise e
    gc.collect()
    t.emit('Quiet', inputs=s.state(names), calls=sum(len(x) for x in case['threads']),
           threads=len(case['threads']))


def run(case, t, d):
    sys.stdout = Out()
    sys.setswitchinterval(case.get('switch', 1e-5))
    import stempy.image  # noqa: F401 (not by several threads at once)
    import stempy.io  # noqa: F401
    (parts if case['mode'] == 'parts' else shared)(case, t, d)


if __name__ == '__main__':
    common.main(run)
