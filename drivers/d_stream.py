"""stempy.io.Reader: files of the versions 1, 2 and 3.

case: {version, size, files: [{blocks: [{head, numbers, frames}], bytes}],
       ops: ["Read" | "Reset" | "Iter"], single: bool}
"""
import gc
import os

import common
import fmt


def encode(version, size, b, tags):
    h = b['head']
    if version == 1:
        shape = (h[1], h[2])
    else:
        shape = (size, size)
    frames = [tags.make(t, shape) for t in b['frames']]
    if version == 1:
        return fmt.v1_block(b['numbers'], frames, version=h[3], timestamp=h[4],
                            rows=h[1], cols=h[2])
    if version == 2:
        return fmt.v2_block(h[0], frames)
    return fmt.v3_block(h[0], h[1], h[2:4], h[4:6], frames[0])


def run(case, t, d):
    from stempy.io import reader, FileVersion
    tags = common.Tags()
    version, size = case['version'], case['size']
    paths = []
    for i, f in enumerate(case['files']):
        data = b''.join(encode(version, size, b, tags) for b in f['blocks'])
        p = os.path.join(d, f'data{i}.dat')
        with open(p, 'wb') as fp:
            fp.write(data[:f['bytes']])
        paths.append(p)
    t.emit('New', version=version, size=size, files=case['files'])
    arg = paths[0] if len(paths) == 1 and case.get('single') else paths
    v = {1: FileVersion.VERSION1, 2: FileVersion.VERSION2, 3: FileVersion.VERSION3}[version]
    r = reader(arg, version=v)
    held = []

    def read(get):
        try:
            b = get()
        except StopIteration:
            b = None
        except Exception as e:  # noqa: BLE001
            t.emit('Read', kind='Error', exception=type(e).__name__)
            return
        if b is None:
            t.emit('Read', kind='End')
            return
        h = b.header
        held.append(b)
        t.emit('Read', kind='Block', block={
            'images': h.images_in_block, 'dims': common.ints(h.frame_dimensions),
            'shape': common.ints(b.data.shape), 'version': h.version,
            'timestamp': h.timestamp, 'numbers': common.ints(h.image_numbers),
            'scan': common.ints(h.scan_dimensions),
            'frames': [tags.of(f) for f in b.data]})

    for op in case['ops']:
        if op == 'Reset':
            r.reset()
            t.emit('Reset')
        elif op == 'Read':
            read(r.read)
        else:
            read(lambda: next(r))
    del r
    gc.collect()
    t.emit('Held', frames=[[tags.of(f) for f in b.data] for b in held])


if __name__ == '__main__':
    common.main(run)
