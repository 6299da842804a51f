"""Counted data in HDF5 files

case: {arrays: [... with metadata], ops: [... of d_sparse, Write, Load, MakeFile]}
"""
import os
import random

import h5py
import numpy as np

import common
import d_sparse


def value(x):
    """An attribute as a string, whatever its representation"""
    a = np.asarray(x)
    if a.dtype.kind in 'OSU':
        s = [v.decode() if isinstance(v, bytes) else str(v) for v in a.ravel()]
        return f's{list(a.shape)}{s}'
    kind = {'b': 'b', 'i': 'i', 'u': 'i', 'f': 'f'}[a.dtype.kind]
    v = [float(v).hex() if kind == 'f' else int(v) for v in a.ravel()]
    return f'{kind}{list(a.shape)}{v}'


def flatten(d, path=''):
    items = []
    for k, v in d.items():
        p = f'{path}/{k}'
        if isinstance(v, dict):
            items.append([p, 'group'])
            items += flatten(v, p)
        else:
            items.append([p, value(v)])
    return sorted(items)


def flatten_group(g, path=''):
    items = [[f'{path}/{k}', value(v)] for k, v in g.attrs.items()]
    for k, v in g.items():
        items.append([f'{path}/{k}', 'group'])
        items += flatten_group(v, f'{path}/{k}')
    return sorted(items)


def typed(x):
    """Metadata of the case: {"t": type, "v": value} or a dict of them"""
    if 't' not in x:
        return {k: typed(v) for k, v in x.items()}
    t, v = x['t'], x['v']
    if t in ('int', 'float', 'str', 'bool'):
        return {'int': int, 'float': float, 'str': str, 'bool': bool}[t](v)
    return np.array(v, dtype=t)


def read_file(path):
    with h5py.File(path, 'r') as f:
        g = f['electron_events']
        ps, fs = g['scan_positions'], g['frames']
        out = {'version': int(f.attrs.get('version', 1)),
               'scan': [int(ps.attrs['Ny']), int(ps.attrs['Nx'])],
               'frame': [int(fs.attrs['Nx']), int(fs.attrs['Ny'])],
               'positions': common.ints(ps[()]),
               'frames': [common.ints(x) for x in fs[()]],
               'meta': flatten_group(f['metadata']) if 'metadata' in f else []}
        vlen = h5py.check_dtype(vlen=fs.dtype)
        return out, [np.dtype(vlen).name]


def make_file(path, s, meta):
    with h5py.File(path, 'w') as f:
        if not (s['version'] == 1 and s.get('unversioned')):
            f.attrs['version'] = s['version']
        g = f.create_group('electron_events')
        ps = g.create_dataset('scan_positions', data=np.array(s['positions'], dtype=s['ptype']))
        ps.attrs['Nx'], ps.attrs['Ny'] = s['scan'][1], s['scan'][0]
        fs = g.create_dataset('frames', (len(s['frames']),), dtype=h5py.special_dtype(vlen=np.uint32))
        fs.attrs['Nx'], fs.attrs['Ny'] = s['frame']
        for i, x in enumerate(s['frames']):
            fs[i] = np.array(x, dtype=np.uint32)
        if meta:
            def put(d, g):
                for k, v in d.items():
                    if isinstance(v, dict):
                        put(v, g.create_group(k))
                    else:
                        g.attrs[k] = v
            put(meta, f.create_group('metadata'))


def dtypes(a):
    return sorted({f.dtype.name for fs in a.data for f in fs})


def run(case, t, d):
    from stempy import io
    from stempy.io.sparse_array import SparseArray
    t.emit('New')
    arrays, files = [], []
    for s in case['arrays']:
        meta = typed(s['metadata'])
        a = d_sparse.new_array(s, **({'metadata': meta} if meta or s['emptymeta'] else {}))
        arrays.append(a)
        d_sparse.emit_array(t, s, a, meta=flatten(a.metadata), metaGiven=flatten(meta))
    for op in case['ops']:
        o = op['op']
        if o == 'MakeFile':
            files.append(os.path.join(d, f'{len(files)}.h5'))
            make_file(files[-1], op['file'], typed(op['metadata']))
            t.emit('MakeFile', file=read_file(files[-1])[0])
        elif o == 'Write':
            a = arrays[op['h'] - 1]
            new = not files or op['new']
            k = len(files) if new else op['path'] % len(files)
            if new:
                files.append(os.path.join(d, f'{k}.h5'))
            f = (lambda: io.save_electron_counts(files[k], a)) if op['api'] else \
                (lambda: a.write_to_hdf5(files[k]))
            _, err = common.attempt(f)
            content, types = read_file(files[k])
            t.emit('Write', h=op['h'], path=k + 1, kind='Error' if err else 'Value',
                   exception=err or '', data=d_sparse.raw(a.data), meta=flatten(a.metadata),
                   file=content, dtypes=types)
        elif o == 'Load':
            if not files:
                continue
            k = op['path'] % len(files)
            opts = {'sparse': True, 'allow': False, 'dtype': 'uint32'}
            if op['api']:
                kw = {} if op['keep'] else {'keep_flyback': False}
                got, err = common.attempt(io.load_electron_counts, files[k], **kw)
            else:
                kw = {}
                if op['options']:
                    opts = op['options']
                    kw = {'sparse_slicing': opts['sparse'], 'allow_full_expand': opts['allow'],
                          'dtype': np.dtype(opts['dtype']).type}
                got, err = common.attempt(SparseArray.from_hdf5, files[k], op['keep'], **kw)
            if err:
                t.emit('Load', path=k + 1, out={'kind': 'Error', 'exception': err})
                return
            arrays.append(got)
            t.emit('Load', path=k + 1, keep=op['keep'], options=opts,
                   out={'kind': 'Sparse', 'array': d_sparse.observe(got),
                        'options': d_sparse.options(got)},
                   dtypes=dtypes(got), meta=flatten(got.metadata))
        else:
            d_sparse.do(arrays, op, t)


if __name__ == '__main__':
    common.main(run)
