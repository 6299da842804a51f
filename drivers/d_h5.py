"""HDF5 files; see TraceH5Files.

case: {ops: [{op, ...}]}. Values are tags: the elements of VALUES (and of STRINGS).
"""
import os

import common
import numpy as np

DTYPES = {'Int8': 'int8', 'Int16': 'int16', 'Int32': 'int32', 'Int64': 'int64', 'UInt8': 'uint8',
          'UInt16': 'uint16', 'UInt32': 'uint32', 'UInt64': 'uint64', 'Float': 'float32',
          'Double': 'float64'}
STRINGS = ['', 'a', 'some text', 'b' * 300, '\u00fcn\u00ef']


def table(t):
    d = np.dtype(DTYPES[t])
    if d.kind == 'f':
        big, small = (3e38, 1e-30) if t == 'Float' else (1e300, 1e-200)
        return np.array([0, 1, -2.5, big, small, 1 / 3], dtype=d)
    i = np.iinfo(d)
    return np.array([0, 1, i.max, i.min if i.min else i.max - 1, 5, i.max // 3], dtype=d)


def encode(t, tags):
    return table(t)[np.array(tags, dtype=int)].tobytes()


def decode(t, b):
    v = np.frombuffer(b, dtype=DTYPES[t])
    w = table(t)
    guard = np.frombuffer(b'\x5a' * w.itemsize, dtype=w.dtype)[0]
    return [next((k for k in range(len(w)) if w[k] == x), -7 if x == guard else 99) for x in v]


def text(b):
    s = b.decode('utf-8', 'replace') if isinstance(b, bytes) else b
    return STRINGS.index(s) if s in STRINGS else 99


def name(p):
    return '/' + '/'.join(p)


def typename(d):
    if d.kind in 'OS':
        return 'String'
    for t, n in DTYPES.items():
        if d == np.dtype(n) and d.isnative:
            return t
    return 'Other'


def tags(t, v):
    if t == 'String':
        return [text(x) for x in np.asarray(v).ravel()]
    if t == 'Other':
        return [int(x) for x in np.asarray(v).ravel()]
    return decode(t, np.ascontiguousarray(v).tobytes())


def content(path):
    import h5py
    out = []

    def add(p, o):
        attrs = []
        for n in o.attrs:
            v = o.attrs[n]
            dt = h5py.h5a.open(o.id, n.encode()).dtype
            t = typename(dt)
            attrs.append({'name': n, 'type': t,
                          'values': tags(t, np.asarray(v, dtype=object) if t == 'String' else v)})
        r = {'path': [x for x in p.split('/') if x], 'kind': 'group', 'type': '', 'dims': [],
             'values': [], 'attrs': attrs}
        if isinstance(o, h5py.Dataset):
            t = typename(o.dtype)
            r.update(kind='data', type=t, dims=list(o.shape),
                     values=tags(t, o.asstr()[()] if t == 'String' else o[()]))
        out.append(r)
    with h5py.File(path, 'r') as f:
        add('', f)
        f.visititems(add)
    return out


def foreign(path, objects):
    import h5py
    with h5py.File(path, 'w') as f:
        for o in objects:
            if o['kind'] == 'group':
                g = f.require_group(name(o['path']))
            else:
                if o['type'] == 'Other':
                    v = np.array(o['values'], dtype='>i4').reshape(o['dims'])
                elif o['type'] == 'String':
                    v = np.array([STRINGS[x] for x in o['values']], dtype=h5py.string_dtype()
                                 ).reshape(o['dims'])
                else:
                    v = table(o['type'])[np.array(o['values'], dtype=int)].reshape(o['dims'])
                kw = {'chunks': tuple(o['chunk']), 'compression': 'gzip'} if o.get('chunk') else {}
                g = f.create_dataset(name(o['path']), data=v, **kw)
            for a in o['attrs']:
                if a['type'] == 'String':
                    v = [STRINGS[x] for x in a['values']]
                    if a.get('fixed'):
                        v = np.array([x.encode() for x in v])
                    else:
                        v = np.array(v, dtype=h5py.string_dtype())
                elif a['type'] == 'Other':
                    v = np.array(a['values'], dtype='>i4')
                else:
                    v = table(a['type'])[np.array(a['values'], dtype=int)]
                g.attrs[a['name']] = v[0] if a.get('scalar') and len(v) == 1 \
                    and a['type'] != 'Other' else v


def run(case, t, d):
    import stempy.io  # noqa: F401
    import _vh5
    path = os.path.join(d, 'f.h5')
    t.emit('New')
    f = None
    n = 0
    for o in case['ops']:
        op = o['op']
        e = {k: v for k, v in o.items() if k != 'op'}
        p = name(o['path']) if 'path' in o else None
        if op == 'Foreign':
            f = None
            n += 1
            path = os.path.join(d, f'foreign{n}.h5')
            foreign(path, o['content'])
            t.emit('Foreign', content=content(path))
            continue
        if op == 'Open':
            f = None
            f = _vh5.H5(path, o['write'])
            t.emit('Open', **e)
            continue
        if op == 'Close':
            if o.get('delete'):
                f = None
            elif f is not None:
                f.close()
            t.emit('Close')
            continue
        if op == 'Dump':
            try:
                c = content(path)
            except BlockingIOError:
                c = []  # It is locked: not closed
            t.emit('Dump', content=c)
            continue
        if f is None:
            f = _vh5.H5(path, False)
            f.close()
        if op == 'CreateGroup':
            e['ok'] = f.create_group(p)
        elif op == 'Write':
            e['ok'] = f.write(name(o['path'][:-1]), o['path'][-1], o['dims'], o['type'],
                              encode(o['type'], o['values']), o['how'])
        elif op == 'Create':
            e['ok'] = f.create(name(o['path'][:-1]), o['path'][-1], o['dims'], o['type'],
                               o['chunk'])
        elif op == 'Update':
            b = encode(o['type'], o['values'])
            e['ok'], c = f.update(p, o['dims'], o['type'], b, o['start'], o['counts'])
            e['unchanged'] = b == c
        elif op == 'SetAttribute':
            if o['type'] == 'String':
                e['ok'] = f.set_string(p, o['name'], STRINGS[o['values'][0]])
            else:
                e['ok'] = f.set_attribute(p, o['name'], o['type'], encode(o['type'], o['values']),
                                          o['scalar'] and len(o['values']) == 1)
        elif op == 'ReadOne':
            e['values'] = decode(o['type'], f.read_one(p, o['type']))
        elif op == 'ReadAll':
            b, dims = f.read_all(p, o['type'])
            e.update(values=decode(o['type'], b), dims=dims)
        elif op == 'Read':
            if o['how'] == 'pointer':
                e['ok'], b = f.read_pointer(p, o['type'], o['n'])
            else:
                e['ok'], b = f.read_block(p, o['type'], o['n'], o['strides'], o['start'],
                                          o['counts'])
            e['values'] = decode(o['type'], b)
        elif op == 'Attribute':
            if o['type'] == 'String':
                e['ok'], b = f.string(p, o['name'])
                e['values'] = [text(b)]
            else:
                e['ok'], b = f.attribute(p, o['name'], o['type'])
                e['values'] = decode(o['type'], b)
        elif op == 'Query':
            ok, ch = f.children(p)
            e.update(isGroup=f.is_group(p), isData=f.is_data_set(p), dataType=f.data_type(p),
                     dims=f.dimensions(p), dimCount=f.dimension_count(p),
                     hasAttributes=f.has_attributes(p), childrenOk=ok, children=ch,
                     all=[x.split('/') for x in f.all_data_sets(p)],
                     attributes=[{'name': a, 'has': f.has_attribute(p, a),
                                  'type': f.attribute_type(p, a)} for a in o['attributes']])
        t.emit(op, **e)


if __name__ == '__main__':
    common.main(run)
