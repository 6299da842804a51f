"""The multi pass reader (see sectors.py), through the harness (api "cpp") or
through stempy.io (api "python"); ops: see run()."""
import numpy as np

import common
import sched
import sectors


def project(case, tags, data):
    n = case['size']
    a = np.frombuffer(data, dtype='<u2')
    if a.size != n * n:
        return [-2] * 4
    return sectors.tags_of(case, tags, a.reshape(n, n))


def raw_block(case, tags, d):
    return {'frame': d['frame'], 'images': d['images'], 'version': d['version'],
            'dims': list(d['dims']), 'scan': list(d['scan']), 'numbers': list(d['numbers']),
            'complete': list(d['complete']), 'sectors': project(case, tags, d['data']),
            'later': project(case, tags, d['later'])}


def selector(sel, np_ints):
    k, v = sel['kind'], sel.get('v')
    if k == 'all':
        return None
    if k == 'int':
        return np.int64(v) if np_ints else v
    if k == 'slice':
        return slice(*[x[0] if x else None for x in v])
    if k == 'list':
        return np.array(v, dtype=int) if np_ints else list(v)
    return np.array(v, dtype=bool) if np_ints else [bool(x) for x in v]


def run(case, t, d):
    import stempy.io
    tags = common.Tags()
    paths = sectors.write(case, d, tags)
    t.emit('New', **sectors.new_event(case))
    if case['api'] == 'cpp':
        run_cpp(case, t, tags, paths)
    else:
        run_python(case, t, tags, paths)


def run_cpp(case, t, tags, paths):
    import _vharness
    ops_cpp(case, case['ops'], t, tags, _vharness.MultiPass(paths, case['threads']))


def ops_cpp(case, ops, t, tags, r):
    for op in ops:
        o = op['op']
        sched.perturb(op.get('s'))
        if o == 'ReadAll':
            got, err = common.attempt(r.read_all)
            sched.calm()
            for x in got or []:
                t.emit('Deliver', block=raw_block(case, tags, x))
            t.emit('ReadAll', kind='Error' if err else 'Done')
        elif o == 'Load':
            got, err = common.attempt(r.load_frames, op['image'], op['idx'])
            sched.calm()
            t.emit('Load', image=op['image'], idx=op['idx'],
                   kind='Error' if err else 'Blocks',
                   blocks=[raw_block(case, tags, x) for x in got or []])
        elif o == 'NumFrames':
            n, err = common.attempt(r.num_frames, op['image'])
            sched.calm()
            t.emit('NumFrames', image=op['image'], kind='Error' if err else 'Value', n=n or 0)
        elif o == 'NumPerScan':
            n, err = common.attempt(r.num_frames_per_scan)
            sched.calm()
            t.emit('NumPerScan', kind='Error' if err else 'Value', n=n or 0)
        else:
            v, err = common.attempt(r.scan_dimensions)
            sched.calm()
            t.emit('Scan', what='dimensions', kind='Error' if err else 'Value',
                   v=list(v or []))


def run_python(case, t, tags, paths):
    from stempy.io import reader
    r = reader(paths, version=5, backend='multi-pass', threads=case['threads'])
    late = []

    def block(b):
        x = {'images': b.header.images_in_block, 'version': b.header.version,
             'dims': list(b.header.frame_dimensions), 'scan': list(b.header.scan_dimensions),
             'numbers': list(b.header.image_numbers), 'shape': list(b.data.shape),
             'sectors': sectors.tags_of(case, tags, b.data)}
        late.append((x, b))
        return x

    events = []
    for op in case['ops']:
        o = op['op']
        if o == 'ReadFrames':
            pos = op['pos']
            p = pos['v'] if pos['kind'] == 'int' else (tuple(pos['v']) if pos['kind'] == 'tuple'
                                                       else list(pos['v']))
            got, err = common.attempt(r.read_frames, p, selector(op['sel'], op.get('np')))
            if err is None:
                kind = 'Blocks' if isinstance(got, list) else 'Block'
                blocks = [block(b) for b in (got if kind == 'Blocks' else [got])]
            else:
                kind, blocks = 'Error', []
            events.append(('ReadFrames', dict(pos=pos, sel=op['sel'], kind=kind,
                                              blocks=blocks, exception=err or '')))
        elif o == 'NumPerScan':
            n, err = common.attempt(lambda: r.num_frames_per_scan)
            events.append(('NumPerScan', dict(kind='Error' if err else 'Value', n=n or 0)))
        else:
            v, err = common.attempt(lambda: r.scan_shape)
            events.append(('Scan', dict(what='shape', kind='Error' if err else 'Value',
                                        v=list(v or []))))
    del r
    for x, b in late:
        x['later'] = sectors.tags_of(case, tags, b.data)
    for e, kw in events:
        t.emit(e, **kw)


if __name__ == '__main__':
    common.main(run)
