"""What arrays contain, after the objects they came from are gone.

case: {seed, source: a source of d_images, steps}
"""
import gc
import os
import random

import numpy as np

import common
import d_images


class Quiet:
    def emit(self, ev, **kw):
        pass


def text(a):
    return [str(v) for v in np.asarray(a).ravel()]


class Holder:
    def __init__(self, case, t, d):
        self.c, self.t, self.d = case, t, d
        self.r = random.Random(case['seed'])
        self.held, self.n, self.fixed = {}, 0, set()
        self.kind = case['source']['kind']

    # -- arrays -------------------------------------------------------------
    def name(self):
        self.n += 1
        return f'a{self.n}'

    def make(self, a, fixed=False):
        k = self.name()
        # Nothing but the array itself is kept
        self.held[k] = a
        if fixed or not a.flags.writeable:
            self.fixed.add(k)
        self.t.emit('Make', a=k, values=text(a))
        return k

    def check(self, names=None):
        for k in names or list(self.held):
            self.t.emit('Check', a=k, values=text(self.held[k]))

    def pick(self):
        return self.r.choice(list(self.held)) if self.held else None

    def part(self):
        """A view or a copy"""
        b = self.pick()
        if b is None or self.held[b].ndim == 0:
            return
        x = self.held[b]
        r = self.r
        at = tuple(slice(r.randrange(n) if n else 0, None, r.choice([1, 1, 2])) for n in x.shape)
        index = (np.arange(x.size).reshape(x.shape)[at].ravel() + 1).tolist()
        if not index:
            return
        k = self.name()
        if r.random() < .6:
            self.held[k] = x[at]
            if b in self.fixed:
                self.fixed.add(k)
            self.t.emit('View', a=k, b=b, index=index)
        else:
            self.held[k] = x[at].copy()
            self.t.emit('Copy', a=k, b=b, index=index)

    def write(self):
        k = self.pick()
        if k is None or k in self.fixed or not self.held[k].size:
            return
        x = self.held[k]
        i = self.r.randrange(x.size)
        v = x.dtype.type(self.r.randrange(50))
        x[np.unravel_index(i, x.shape)] = v
        self.t.emit('Write', a=k, i=i + 1, value=str(v))

    def drop(self):
        k = self.pick()
        if k is not None:
            del self.held[k]
            self.t.emit('Drop', a=k)

    def churn(self):
        """Other objects take the memory that is free"""
        gc.collect()
        sizes = {x.nbytes for x in self.held.values()} | {64, 128, 512, 1024, 4096}
        for n in sizes:
            x = [np.full(n, 90 + i, dtype='uint8') for i in range(30)]
            del x[::2]
            y = [bytes([i]) * n for i in range(30)]
            del x, y
        self.t.emit('Other')

    # -- functions ----------------------------------------------------------
    def source(self):
        self.x = d_images.Run(dict(self.c['source'], ops=[]), Quiet(), self.d)
        self.run = self.x
        self.run.file = None
        self.x = self.run.make()
        if self.kind in ('sparsearray', 'counted') and self.x is not None:
            # The sparse array itself is not changed by its results
            for f in np.asarray(self.x.data).reshape(-1)[:3]:
                self.make(f, fixed=True)
        return self.x

    def end(self):
        """The source ends, and its file"""
        self.x = None
        if self.run and self.run.file:
            self.run.file.close()
        self.run = None
        for f in os.listdir(self.d):
            p = os.path.join(self.d, f)
            if os.path.isfile(p):
                os.remove(p)
        gc.collect()
        self.t.emit('Other')

    def images(self):
        from stempy import image
        r, s = self.r, self.c['source']
        reader = self.kind in ('v1', 'v3', 'py', 'sector')
        f = r.choice(['Stem', 'Stem'] + (['RadialSum', 'Average', 'Maximum', 'Dark', 'Histogram']
                                         if reader else []))
        kw = {}
        if self.kind in ('v1', 'array', 'sparse', 'sparse1'):
            kw['scan_dimensions'] = tuple(s['scan'])
        if reader:
            self.x.reset()
        if f == 'Stem':
            if self.kind in ('sparse', 'sparse1'):
                kw['frame_dimensions'] = tuple(s['dims'])
            new = list(image.create_stem_images(self.x, (0, 1, 0), (1, 3, 40), **kw))
            r.shuffle(new)
            new = new[:2]
        elif f == 'RadialSum':
            new = [image.radial_sum(self.x, **kw)]
        elif f == 'Histogram':
            bins, freqs = image.create_stem_histogram(4, self.x, (0,), (9,), **kw)
            new = [bins[0], freqs[0]]
        elif f == 'Dark':
            dark = np.array([[r.randrange(9) for _ in range(s['dims'][0])]
                             for _ in range(s['dims'][1])], dtype='float64')
            k = self.make(dark)
            new = [image.maximum_diffraction_pattern(self.x, dark)]
            self.check([k])
        else:
            g = {'Average': image.calculate_average,
                 'Maximum': image.maximum_diffraction_pattern}[f]
            new = [g(self.x)]
        for x in new:
            self.make(x)

    def blocks(self):
        if self.kind not in ('v1', 'v3', 'py', 'sector'):
            return
        self.x.reset()
        for _ in range(self.r.choice([1, 2, 4])):
            b = self.x.read()
            if b is None:
                break
            # The array alone, but not the block
            self.make(b.data, fixed=self.kind == 'py')
            del b

    def sparse(self):
        """Results of the methods of sparse arrays"""
        from stempy import io
        if self.kind not in ('sparsearray', 'counted') or self.x is None:
            return
        r, x = self.r, self.x
        f = r.choice(['slice', 'crop', 'dense', 'sum', 'max', 'file', 'frames', 'part'])
        if f == 'slice':
            x.sparse_slicing = True
            y = x[::r.choice([1, 2])]
            self.frames(y)
        elif f == 'crop':
            x.sparse_slicing = True
            self.frames(x[:, :, ::2, 1 if x.frame_shape[1] > 1 else 0:])
        elif f == 'dense':
            self.make(x.to_dense())
        elif f == 'sum':
            self.make(np.asarray(x.sum(axis=r.choice([(0, 1), (2, 3)]))))
        elif f == 'max':
            self.make(np.asarray(x.max(axis=(0, 1))))
        elif f == 'file':
            p = os.path.join(self.d, 'c.h5')
            if os.path.exists(p):
                os.remove(p)
            x.write_to_hdf5(p)
            y = io.SparseArray.from_hdf5(p)
            os.remove(p)
            self.frames(y)
        elif f == 'part':
            x.sparse_slicing = False
            self.make(np.asarray(x[0]))
        else:
            x.sparse_slicing = True
            y = x[:]
            self.frames(y)
            del y

    def frames(self, y):
        some = [f for fs in np.asarray(y.data).reshape(-1) for f in [fs] if len(f)]
        self.r.shuffle(some)
        for f in some[:2]:
            self.make(f)

    def counted(self):
        """Frames of electrons, and the inputs of counting"""
        from stempy import image, io
        import contextlib
        rng = np.random.RandomState(self.r.randrange(1 << 30))
        n, h, w = 4, 16, 12
        a = rng.normal(100, 4, (n, h, w)).clip(1).astype('<u2')
        a[rng.rand(n, h, w) < .05] += 60
        dark = rng.randint(0, 3, (h, w)).astype(self.r.choice(['float32', 'float64', 'uint16']))
        gain = np.full((h, w), 2, dtype=self.r.choice(['float32', 'float64']))
        ks = [self.make(y, fixed=True) for y in (a, dark, gain)]
        with open(os.devnull, 'w') as null, contextlib.redirect_stdout(null):
            got, err = common.attempt(
                image.electron_count, io.PyReader(a, np.arange(n), (2, 2), 2, n),
                darkreference=dark, gain=gain if self.r.random() < .5 else None,
                number_of_samples=4, apply_row_dark=self.r.random() < .4)
        self.check(ks)
        if got is not None:
            self.frames(got)
            self.make(got.to_dense()[0])
            del got

    def run_case(self):
        self.t.emit('New')
        steps = [self.blocks, self.images, self.images, self.sparse, self.sparse, self.part,
                 self.part, self.write, self.write, self.drop, self.churn, self.counted]
        self.source()
        for k in range(self.c['steps']):
            f = self.r.choice(steps)
            if self.x is None and f in (self.blocks, self.images, self.sparse):
                continue
            f()
            if f in (self.write, self.part, self.drop):
                self.check()
        self.end()
        self.check()
        self.churn()
        self.check()
        for _ in range(6):
            self.r.choice([self.write, self.drop, self.part])()
            self.check()
        self.churn()
        self.check()


def run(case, t, d):
    Holder(case, t, d).run_case()


if __name__ == '__main__':
    common.main(run)
