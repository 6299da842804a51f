"""stempy.io.SparseArray

case: {arrays: [{scan, frame, data, dtype, item, sparse, allow, flat}], ops: [...]}
The handles of the operations count from 1.
"""
import contextlib
import os

import numpy as np

import common


def pick(sel, np_ints):
    k, v = sel['kind'], sel.get('v')
    if k == 'all':
        return slice(None)
    if k == 'int':
        return np.int64(v) if np_ints else v
    if k == 'slice':
        return slice(*[x[0] if x else None for x in v])
    if k == 'list':
        return np.array(v, dtype=int) if np_ints else list(v)
    if k == 'mask2':
        return np.array(v, dtype=bool)
    return np.array(v, dtype=bool) if np_ints else [bool(x) for x in v]


def nonzero(a, scale=None):
    a = np.asarray(a)
    flat = a.ravel()
    idx = np.flatnonzero(flat)
    vals = flat[idx]
    if scale:
        vals = np.rint(vals.astype(np.float64) * scale)
    else:
        assert np.all(vals == np.rint(vals))
    return [[int(i), int(v)] for i, v in zip(idx, vals)]


def dense(a, scale=None):
    a = np.asarray(a)
    return {'shape': common.ints(a.shape), 'nz': nonzero(a, scale), 'dtype': a.dtype.name}


def raw(data):
    return [[common.ints(f) for f in frames] for frames in data]


def observe(a):
    return {'scan': common.ints(a.scan_shape), 'frame': common.ints(a.frame_shape),
            'shape': common.ints(a.shape), 'ndim': int(a.ndim),
            'positions': int(a.num_scans), 'frames': int(a.num_frames_per_scan),
            'data': raw(a.data), 'dense': dense(a.to_dense())}


def options(a):
    return {'sparse': bool(a.sparse_slicing), 'allow': bool(a.allow_full_expand),
            'dtype': np.dtype(a.dtype).name}


def make_data(spec):
    rows, k = spec['data'], len(spec['data'][0])
    data = np.empty((len(rows), k), dtype=object)
    for i, frames in enumerate(rows):
        for j, f in enumerate(frames):
            data[i, j] = np.array(f, dtype=spec['item'])
    if spec.get('order') == 'F':
        data = np.asfortranarray(data)
    return data[:, 0] if spec.get('flat') and k == 1 else data


def key_of(op):
    ss = [pick(s, op.get('np')) for s in op['ss']]
    fs = [pick(s, op.get('np')) for s in op['fs']]
    ell = op.get('ell')
    key = tuple(ss + fs) if ell is None else tuple(ss[:ell] + [Ellipsis] + fs)
    return key[0] if len(key) == 1 and op.get('bare') else key


def result(arrays, h, f, scale=None):
    from stempy.io.sparse_array import SparseArray
    with contextlib.redirect_stderr(open(os.devnull, 'w')):
        got, err = common.attempt(f)
    if err:
        return {'kind': 'Error', 'exception': err}
    if isinstance(got, SparseArray):
        if got is arrays[h]:
            return {'kind': 'Self', 'array': observe(got), 'options': options(got)}
        arrays.append(got)
        return {'kind': 'Sparse', 'array': observe(got), 'options': options(got)}
    return dict(dense(got, scale), kind='Dense')


def axis_of(x, op):
    if x['kind'] in ('scan', 'frame'):
        return x['kind']
    if x['kind'] == 'all':
        return None
    v = list(x['v'])
    if len(v) == 1 and op.get('bare'):
        return v[0]
    return v if op.get('np') else tuple(v)


def do(arrays, op, t):
    o = op['op']
    if o == 'Observe':
        t.emit('Observe', arrays=[observe(a) for a in arrays])
        return
    h = op['h'] - 1
    a = arrays[h]
    kw = {k: v for k, v in op.items() if k not in ('op', 'np', 'ell', 'bare', 'via')}
    if o == 'Set':
        a.sparse_slicing, a.allow_full_expand = op['sparse'], op['allow']
        t.emit('Set', **kw)
    elif o == 'Poke':
        # The elements of the data are changed directly: pixels move to the next one
        n = int(np.prod(a.frame_shape))
        for f in a.data.ravel():
            f[...] = (f + 1) % n if n else f
        t.emit('Poke', data=raw(a.data), **kw)
    elif o == 'Slice':
        key = key_of(op)
        t.emit('Slice', key=repr(key), out=result(arrays, h, lambda: a[key]), **kw)
    elif o == 'Bin':
        f = a.bin_scans if op['what'] == 'scans' else a.bin_frames
        t.emit('Bin', out=result(arrays, h, lambda: f(op['factor'], in_place=op['inplace'])),
               **kw)
    elif o == 'Reshape':
        def reshape():
            shape = tuple(op['shape'])
            if op['via'] == 'setter':
                a.shape = shape
                return a
            return a.reshape(shape) if op['via'] == 'tuple' else a.reshape(*shape)
        t.emit('Reshape', out=result(arrays, h, reshape), **kw)
    elif o == 'Ravel':
        t.emit('Ravel', out=result(arrays, h, a.ravel_scans), **kw)
    elif o == 'Reduce':
        args = {}
        if op['dtype']:
            args['dtype'] = np.dtype(op['dtype']).type
        ax = axis_of(op['axis'], op)
        f = getattr(a, op['what'])
        t.emit('Reduce', out=result(
            arrays, h, lambda: f(ax, **args) if op.get('np') else f(axis=ax, **args),
            1000 if op['what'] == 'mean' else None), **kw)
    else:
        raise ValueError(o)


def new_array(s, **kw):
    from stempy.io.sparse_array import SparseArray
    return SparseArray(make_data(s), tuple(s['scan']), tuple(s['frame']),
                       dtype=np.dtype(s['dtype']).type, sparse_slicing=s['sparse'],
                       allow_full_expand=s['allow'], **kw)


def emit_array(t, s, a, **kw):
    t.emit('Array', scan=s['scan'], frame=s['frame'], data=s['data'], dtype=s['dtype'],
           sparse=s['sparse'], allow=s['allow'], array=observe(a), **kw)


def run(case, t, d):
    t.emit('New')
    arrays = []
    for s in case['arrays']:
        arrays.append(new_array(s))
        emit_array(t, s, arrays[-1])
    for op in case['ops']:
        do(arrays, op, t)


if __name__ == '__main__':
    common.main(run)
