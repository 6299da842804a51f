"""Electron counting with all of the readers; see TraceElectronCount.

case: source "files" (see sectors.py, with px: the pixels of the sectors by tag)
      or "frames" (w, h, scan, frames, numbers);
      api: threaded, multi-pass, sector / py, v1, v3
      ops: see count() and thresholds()
"""
import contextlib
import io
import math
import os

import numpy as np

import common
import fmt
import sched
import sectors

BIG = 1 << 28


def clamp(x):
    return int(max(-BIG, min(BIG, x)))


def scaled(bg, xray, om):
    return {'bg': clamp(math.floor(16 * bg)), 'xray': clamp(math.ceil(16 * xray)),
            'omLo': clamp(math.floor(64 * om)), 'omHi': clamp(math.ceil(64 * om))}


class Source:
    """Makes readers of the data of the case"""

    def __init__(self, case, d):
        self.case, self.keep, self.d = case, None, d
        c = case
        if c['source'] == 'files':
            px = c['px']
            self.paths = sectors.write(
                c, d, None, lambda r, s: np.array(px[r['tag'] - 1]).reshape(sectors.shape(c)))
            return
        self.w, self.h = c['w'], c['h']
        self.frames = np.array(c['frames'], dtype='<u2').reshape(-1, self.h, self.w)
        p = os.path.join(d, 'data')
        if c['api'] == 'v1':
            out, k = [], 0
            for n in c['blocks']:
                out.append(fmt.v1_block([x + 1 for x in c['numbers'][k:k + n]],
                                        self.frames[k:k + n]))
                k += n
            open(p, 'wb').write(b''.join(out))
        elif c['api'] == 'v3':
            w = c['scan'][0]
            open(p, 'wb').write(b''.join(
                fmt.v3_block(1, k, c['scan'], (n % w, n // w), f)
                for k, (n, f) in enumerate(zip(c['numbers'], self.frames))))
        self.paths = [p]

    def reader(self):
        from stempy.io import reader, PyReader
        c = self.case
        if c['api'] == 'threaded':
            return reader(self.paths, version=c['version'], backend='thread',
                          threads=c['threads'])
        if c['api'] == 'multi-pass':
            if self.keep is None:
                self.keep = reader(self.paths, version=5, backend='multi-pass',
                                   threads=c['threads'])
            return self.keep
        if c['api'] == 'sector':
            return reader(self.paths, version=c['version'])
        if c['api'] == 'py':
            return PyReader(self.frames, np.array(c['numbers']), tuple(c['scan']), c['block'],
                            len(c['frames']))
        return reader(self.paths[0], version={'v1': 1, 'v3': 3}[c['api']])

    def frame_shape(self):
        c = self.case
        return (c['size'], c['size']) if c['source'] == 'files' else (c['h'], c['w'])


def arrays(o, shape):
    """The dark reference and the gain as the user may pass them"""
    dark = gain = None
    if o['dark']:
        dark = np.array(o['dark']).reshape(shape)
        k = o.get('darkType', 'float32')
        if k == 'average':
            from stempy.image import calculate_average
            from stempy.io import PyReader
            f = np.stack([dark, dark]).astype('<u2')
            dark = calculate_average(PyReader(f, np.arange(2), (2, 1), 32, 2))
        elif k == 'fortran':
            dark = np.asfortranarray(dark.astype('float64'))
        elif k == 'strided':
            x = np.full((shape[0] * 2, shape[1] * 3), 9, dtype='float32')
            x[::2, ::3] = dark
            dark = x[::2, ::3]
        else:
            dark = dark.astype(k)
    if o['gain']:
        # Inverted by electron_count
        gain = np.power(2., -np.array(o['gain'], dtype=float)).reshape(shape)
        k = o.get('gainType', 'float64')
        gain = np.asfortranarray(gain) if k == 'fortran' else gain.astype(k)
    return dark, gain


def meta(g):
    def r(x, u=64):
        return clamp(math.floor(u * x + .5))
    return {'bg': r(g['background_threshold']), 'xray': r(g['x_ray_threshold']),
            'mean': r(g['mean']), 'variance': r(g['variance']), 'std': r(g['std_dev']),
            'min': r(g['min_sample']), 'max': r(g['max_sample']),
            'optMean': r(g['optimized_mean']), 'optStd': r(g['optimized_std_dev']),
            'samples': r(g['number_of_samples'], 1),
            'xraySigma': r(g['x_ray_threshold_n_sigma'], 1),
            'bgSigma': r(g['background_threshold_n_sigma'], 1),
            'calculated': int(g['threshold_calculated'])}


FIELDS = ['background_threshold', 'number_of_samples', 'min_sample', 'max_sample', 'mean',
          'variance', 'std_dev', 'optimized_mean', 'optimized_std_dev',
          'background_threshold_n_sigma']


def count(case, src, op, t):
    import stempy.image as im
    o = op['options']
    dark, gain = arrays(o, src.frame_shape())
    parallel = case['api'] in ('threaded', 'multi-pass')
    direct = op.get('direct')
    printed = io.StringIO()

    def go():
        r = src.reader()
        if direct:
            c = im._image.ElectronCountOptionsClassic()
            if dark is not None:
                c.dark_reference = np.ascontiguousarray(dark, dtype=np.float32)
            if gain is not None:
                c.gain = np.ascontiguousarray(1 / gain, dtype=np.float32)
            c.background_threshold = direct['bg']
            c.x_ray_threshold = direct['xray']
            c.optimized_mean = direct['om']
            c.scan_dimensions = tuple(op['scan'])
            c.apply_row_dark_subtraction = o['rowDark']
            c.apply_row_dark_use_mean = o['useMean']
            res = im._image.electron_count(r.begin(), r.end(), c)
            return ([[list(map(int, np.array(f))) for f in p] for p in res.data],
                    tuple(res.scan_dimensions)[::-1], tuple(res.frame_dimensions)[::-1], set(), None)
        kw = dict(number_of_samples=o['samples'], background_threshold_n_sigma=o['bgSigma'],
                  xray_threshold_n_sigma=o['xraySigma'], threshold_num_blocks=o['blocks'],
                  scan_dimensions=tuple(op['scan']), gain=gain, apply_row_dark=o['rowDark'],
                  apply_row_dark_use_mean=o['useMean'], verbose=not parallel)
        with contextlib.redirect_stdout(printed):
            a = im.electron_count(r, dark, **kw)
        return ([[list(map(int, f)) for f in p] for p in a.data], tuple(a.scan_shape),
                tuple(a.frame_shape), {str(f.dtype) for p in a.data for f in p},
                a.metadata['electron_counting'])

    sched.perturb(op.get('s'))
    got, err = common.attempt(go)
    sched.calm()
    th, m = scaled(0, 0, 0), {}
    if err is None:
        g = got[4]
        if direct:
            th = scaled(direct['bg'], direct['xray'], direct['om'])
        elif parallel:
            th = scaled(g['background_threshold'], g['x_ray_threshold'], g['optimized_mean'])
            m = meta(g)
        else:
            v = dict(x.split(':') for x in printed.getvalue().splitlines() if ':' in x)
            th = scaled(*(float(v[k]) for k in ('background threshold', 'xray threshold',
                                                'optimized mean')))
    data, shape, fshape, dtypes = got[:4] if err is None else ([], (), (), set())
    t.emit('Count', options=o, scan=op['scan'], needs=0 if direct else o['blocks'],
           serial=not parallel, onlyComplete=case['api'] == 'threaded',
           noFit=op.get('noFit', 0), mayFail=op.get('mayFail', False),
           kind='Error' if err else 'Value', exception=err or '', data=data,
           shape=list(shape), frameShape=list(fshape), dtypes=sorted(dtypes), th=th,
           # A fit that is far off is beyond the range of the specification
           judged=bool(direct or not o['rowDark'] or 0 <= th['omLo'] <= 6400),
           hasMeta=bool(m), meta=m, gaussian=op.get('gaussian', []),
           checkSamples=op.get('checkSamples', False),
           each=op.get('each', False), firstBlocks=0,
           distinct=o['blocks'])


def thresholds(case, src, op, t):
    import stempy.image as im
    o = op['options']
    dark, gain = arrays(o, src.frame_shape())
    r = src.reader()
    blocks = [next(r) for _ in range(o['blocks'])]
    n = sum(b.header.images_in_block for b in blocks)
    args = [[b._block for b in blocks]]
    if dark is not None:
        args.append(np.ascontiguousarray(dark, dtype=np.float32))
    args += [o['samples'], o['bgSigma'], o['xraySigma']]
    if gain is not None:
        args.append(np.ascontiguousarray(1 / gain, dtype=np.float32))
    res, err = common.attempt(im._image.calculate_thresholds, *args)
    m = {}
    if err is None:
        g = {k: getattr(res, k) for k in FIELDS}
        g['x_ray_threshold'] = res.xray_threshold
        g['x_ray_threshold_n_sigma'] = res.xray_threshold_n_sigma
        g['threshold_calculated'] = True
        m = meta(g)
    t.emit('Thresholds', options=o, noFit=op.get('noFit', 0), mayFail=op.get('mayFail', False),
           kind='Error' if err else 'Value', exception=err or '', meta=m,
           gaussian=op.get('gaussian', []), checkSamples=op.get('checkSamples', False),
           each=op.get('each', False), firstBlocks=n, distinct=o['samples'])


def run(case, t, d):
    src = Source(case, d)
    if case['source'] == 'files':
        t.emit('New', source='files', w=case['size'], h=case['size'], px=case['px'],
               **sectors.new_event(case))
    else:
        t.emit('New', source='frames', w=case['w'], h=case['h'], scan=case['scan'],
               frames=case['frames'], numbers=case['numbers'])
    for op in case['ops']:
        (thresholds if op['op'] == 'Thresholds' else count)(case, src, op, t)


if __name__ == '__main__':
    common.main(run)
