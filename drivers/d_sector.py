"""stempy.io.SectorReader (see sectors.py); ops: Read, Iter, Reset, Captured"""
import gc

import common
import sectors


def run(case, t, d):
    from stempy.io import reader
    tags = common.Tags()
    paths = sectors.write(case, d, tags)
    t.emit('New', **sectors.new_event(case))
    arg = paths[0] if len(paths) == 1 else paths
    r = reader(arg, version=case['version'])
    held = []
    for op in case['ops']:
        if op in ('Read', 'Iter'):
            try:
                b = r.read() if op == 'Read' else next(r)
            except StopIteration:
                b = None
            except Exception as e:  # noqa: BLE001
                t.emit('Read', kind='Error', exception=type(e).__name__)
                continue
            if b is None:
                t.emit('Read', kind='End')
                continue
            h = b.header
            held.append(b)
            t.emit('Read', kind='Block', block={
                'images': h.images_in_block, 'version': h.version,
                'dims': common.ints(h.frame_dimensions),
                'shape': common.ints(b.data.shape), 'scan': common.ints(h.scan_dimensions),
                'numbers': common.ints(h.image_numbers),
                'sectors': sectors.tags_of(case, tags, b.data[0])})
        elif op == 'Reset':
            r.reset()
            t.emit('Reset')
        elif op == 'Captured':
            x = r.data_captured() * case['scan'][0] * case['scan'][1] * 4
            t.emit('Captured', sectors=round(x) if x == x and abs(x) < 1e9 else -1)
    del r
    gc.collect()
    t.emit('Held', sectors=[sectors.tags_of(case, tags, b.data[0]) for b in held])


if __name__ == '__main__':
    common.main(run)
