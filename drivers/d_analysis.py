"""Analysis of counted data; see TraceSparseAnalysis.

case: {scan: [h, w], shape: [h, w], data: [[[electron]]], items, make: [op], ops}
"""
import math
import os
import warnings

import numpy as np

import common

UNIT = 1024


def units(v):
    return -1 if math.isnan(v) else math.floor(float(v) * UNIT) if abs(v) < 1 << 20 else 1 << 30


def half(v):
    """Of a doubled number"""
    return v // 2 if v % 2 == 0 else v / 2


def items(ev, kind):
    if kind == 'strided':
        b = np.full(3 * len(ev), 7, dtype='uint32')
        b[::3] = ev
        return b[::3]
    return np.array(ev, dtype=kind)


def source(case):
    from stempy import io
    n = case['scan'][0] * case['scan'][1]
    per = len(case['data'][0])
    data = np.empty((n, per), dtype=object)
    for p in range(n):
        for j in range(per):
            data[p, j] = items(case['data'][p][j], case['items'])
    a = io.SparseArray(data, tuple(case['scan']), tuple(case['shape']))
    for o in case['make']:
        if o[0] == 'bin_frames':
            a = a.bin_frames(o[1], in_place=o[2])
        elif o[0] == 'bin_scans':
            a = a.bin_scans(o[1], in_place=o[2])
        else:
            a.sparse_slicing = True
            s = tuple(slice(*x) for x in o[1:])
            a = a[s] if o[0] == 'slice' else a[(slice(None), slice(None)) + s]
    return a


def doubtful(a, crop):
    """Whether the distance of an electron to the center of mass of its position may or may
    not be within crop (doubled), due to rounding"""
    for fs in a.data:
        es = [int(e) for f in fs for e in f]
        n = len(es)
        xs = [divmod(e, a.frame_shape[1]) for e in es]
        sums = [sum(x[k] for x in xs) for k in range(2)]
        for x in xs:
            d2 = sum((2 * (n * v - w)) ** 2 for v, w in zip(x, sums))
            near = abs(math.sqrt(d2) / n - crop) < 1e-3
            exact = d2 == (crop * n) ** 2 and n in (1, 2, 4, 8)
            if near and not exact:
                return True
    return False


def run(case, t, d):
    from stempy import image
    t.emit('New')
    warnings.simplefilter('ignore')
    a = None
    if 'data' in case:
        a = source(case)
        t.emit('Source', scan=common.ints(a.scan_shape), shape=common.ints(a.frame_shape),
               data=[[common.ints(f) for f in fs] for fs in a.data])
    for o in case['ops']:
        k = o['op']
        if k == 'Com':
            if o['crop'] >= 0 and not o['center'] and doubtful(a, o['crop']):
                continue
            kw = {'version': o['version']} if o['version'] or o['explicit'] else {}
            if o['crop'] >= 0:
                c = half(o['crop'])
                kw['crop_to'] = {'no': c, 'first': (c, c - 1), 'last': (c - 1, c),
                                 'list': [c - 1, c], 'both': (c, c)}[o['tuple']]
            if o['center']:
                kw['init_center'] = tuple(half(x) for x in o['center'])
            if not o['replace'] or o['explicit']:
                kw['replace_nans'] = o['replace']
            got = image.com_sparse(a, **kw)
            t.emit(k, version=o['version'], crop=o['crop'],
                   center=o['center'] if o['crop'] >= 0 else [], replace=o['replace'],
                   shape=common.ints(got.shape), out=[[units(v) for v in x.ravel()] for x in got])
        elif k == 'DarkField':
            v = [[half(x[i]) for x in o['apertures']] for i in range(3)]
            if o['how'] == 'number' and len(o['apertures']) == 1:
                v = [x[0] for x in v]
            elif o['how'] == 'array':
                v = [np.array(x) for x in v]
            got = image.virtual_darkfield(a, *v)
            t.emit(k, apertures=o['apertures'], shape=common.ints(got.shape),
                   out=common.ints(got.ravel()))
        elif k == 'RadialSum':
            got = image.radial_sum_sparse(a, tuple(half(x) for x in o['center']))
            t.emit(k, center=o['center'], shape=common.ints(got.shape),
                   out=[common.ints(x) for x in got.reshape(-1, got.shape[-1])])
        elif k == 'Sum':
            data = a.data
            if o['flat'] and data.shape[1] == 1:
                data = data[:, 0]
            got = image.calculate_sum_sparse(data, a.frame_shape)
            t.emit(k, shape=common.ints(got.shape), out=common.ints(got.ravel()))
        elif k == 'Mask':
            m = np.zeros(a.num_scans, dtype=o['dtype'])
            for p in o['positions']:
                m[p % len(m)] = 1
            got = image.mask_real_space(a, m.reshape(a.scan_shape))
            t.emit(k, mask=common.ints(m), shape=common.ints(got.shape),
                   out=common.ints(got.ravel()))
        elif k == 'DenseCom':
            f = np.array(o['frames'], dtype=o['dtype']).reshape([-1] + o['shape'])
            if len(f) == 1 and o['flat']:
                f = f[0]
            if o['layout'] == 'F':
                f = np.asfortranarray(f)
            got = image.com_dense(f)
            t.emit(k, shape=o['shape'], frames=o['frames'],
                   out=[[units(v) for v in x] for x in got])
        elif k == 'Filter':
            nothing = -1000000000
            c = np.array(o['com'], dtype=o['dtype']).reshape([2] + o['scan'])
            c[c == nothing] = np.nan
            got = image.filter_bad_sectors(c / UNIT, (o['low'] / UNIT, o['high'] / UNIT))
            t.emit(k, com=o['com'], scan=o['scan'], low=o['low'], high=o['high'],
                   out=[[nothing if math.isnan(v) else round(float(v) * UNIT) for v in x.ravel()]
                        for x in got])
        else:
            raise ValueError(k)


if __name__ == '__main__':
    common.main(run)
