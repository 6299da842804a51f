"""Raw HDF5 files (see TraceRawFiles); the case has sector files (see sectors.py) and ops"""
import contextlib
import gc
import os

import h5py
import numpy as np

import common
import fmt
import sectors


class Run:
    def __init__(self, case, t, d):
        self.case, self.t, self.d = case, t, d
        self.tags = common.Tags()
        self.files, self.open, self.readers, self.held = [], {}, [], []

    def project(self, frame, n):
        """The tags of the n sectors of a frame"""
        if n == 4:
            return sectors.tags_of(self.case, self.tags, frame)
        return [self.tags.of(frame)]

    def path(self, k):
        """The k-th file (modulo their number), or a new one"""
        if k is None or not self.files:
            self.files.append({'path': os.path.join(self.d, f'{len(self.files)}.h5'), 'n': 1})
            return len(self.files) - 1
        return k % len(self.files)

    def content(self, k):
        f = self.files[k]
        if not os.path.exists(f['path']):
            return {'exists': False, 'format': 'No'}, ''
        with h5py.File(f['path'], 'r') as h:
            if 'frames' not in h and 'datacube' not in h and 'stem/images' not in h:
                return {'exists': True, 'format': 'None'}, ''
            stem = {'shape': [], 'values': [], 'names': []}
            if 'stem/images' in h:
                s = h['stem/images']
                stem = {'shape': common.ints(s.shape), 'values': common.ints(s[()].ravel()),
                        'names': [str(x) for x in s.attrs.get('names', [])]}
            if 'datacube' in h:
                a = h['datacube'][()]
                w, hh = a.shape[:2]
                frames = [self.project(a[p % w, p // w], f['n']) for p in range(w * hh)]
                return {'exists': True, 'format': 'DataCube', 'frames': frames, 'outer': [w, hh],
                        'shape': common.ints(a.shape[2:]), 'dtype': a.dtype.name}, ''
            if 'frames' not in h:
                return {'exists': True, 'format': 'Stem', 'stem': stem}, ''
            x = h['frames']
            a = x[()]
            return {'exists': True, 'format': 'Frame', 'shape': common.ints(a.shape[1:]),
                    'dtype': a.dtype.name, 'frames': [self.project(y, f['n']) for y in a],
                    'scan': common.ints(x.attrs.get('scan_dimensions', [])),
                    'positions': common.ints(h['scan_positions'][()]) if 'scan_positions' in h
                    else [], 'stem': stem}, x.compression or ''

    def data(self, op):
        """Frames of any type that hold the tags"""
        a = np.stack([common.pattern(x, op['shape'][0] * op['shape'][1]).reshape(op['shape'])
                      if x else np.zeros(op['shape'], dtype='<u2') for x in op['frames']])
        if op['dtype'] == 'uint8':
            a &= 255
        a = a.astype(op['dtype'])
        for x, y in zip(op['frames'], a):
            if x:
                key = y.astype('<u2').tobytes()
                assert self.tags.known.get(key, x) == x
                self.tags.known[key] = x
        lay = op['layout']
        if lay == 'F':
            a = np.asfortranarray(a)
        elif lay == 'strided':
            b = np.full((2 * a.shape[0], a.shape[1] + 1, 3 * a.shape[2]), 9, dtype=a.dtype)
            b[::2, 1:, ::3] = a
            a = b[::2, 1:, ::3]
        elif lay == 'reversed':
            a = a[::-1, :, ::-1].copy()[::-1, :, ::-1]
        return a

    def close(self, k):
        # The readers of this file are not used any more
        self.readers = [r for r in self.readers if r[2] != k]
        if k in self.open:
            self.open.pop(k).close()

    def op(self, op):
        from stempy import io
        t, o = self.t, op['op']
        if o in ('SectorRead', 'SectorReset', 'Convert', 'BadPath') and self.sector is None:
            return
        if o == 'SectorRead':
            b = self.sector.read()
            if b is None:
                t.emit('SectorRead', kind='End')
            else:
                t.emit('SectorRead', kind='Block', number=int(b.header.image_numbers[0]),
                       sectors=self.project(b.data[0], 4))
        elif o == 'SectorReset':
            self.sector.reset()
            t.emit('SectorReset')
        elif o in ('Convert', 'BadPath'):
            k = self.path(op['path']) if o == 'Convert' else None
            p = os.path.join(self.d, 'no', 'x.h5')
            if k is not None:
                self.close(k)
                p = self.files[k]['path']
            fm = getattr(io.SectorReader.H5Format, op['format'])
            frame = op['format'] == 'Frame'
            if op['api'] == 'function':
                f = (lambda: io.write_hdf5(p, self.sector)) if frame and op['short'] else \
                    (lambda: io.write_hdf5(p, self.sector, fm))
            else:
                f = (lambda: self.sector.to_hdf5(p)) if frame and op['short'] else \
                    (lambda: self.sector.to_hdf5(p, format=fm))
            with silence():
                _, err = common.attempt(f)
            if k is None:
                t.emit('BadPath', kind='Error' if err else 'Value')
            else:
                self.files[k]['n'] = 4
                t.emit('Convert', path=k + 1, format=op['format'], kind='Error' if err else 'Value',
                       file=self.content(k)[0])
        elif o == 'Save':
            k = self.path(op['path'])
            if self.content(k)[0].get('format') == 'DataCube':
                k = self.path(None)
            self.close(k)
            new = 'scan' not in self.content(k)[0]
            kw = {}
            if op['scan']:
                kw['scan_dimensions'] = tuple(op['scan'])
            if op['positions']:
                kw['scan_positions'] = op['positions'] if op['plist'] else \
                    np.array(op['positions'], dtype=op['ptype'])
            if op['zip']:
                kw['zip_data'] = True
            _, err = common.attempt(io.save_raw_data, self.files[k]['path'], self.data(op), **kw)
            if new:
                self.files[k]['n'] = 1
            content, compression = self.content(k)
            t.emit('Save', path=k + 1, shape=op['shape'], dtype=op['dtype'],
                   frames=[[x] for x in op['frames']], scan=op['scan'], positions=op['positions'],
                   zip=op['zip'], kind='Error' if err else 'Value', exception=err or '',
                   file=content, compression=compression)
        elif o == 'SaveStem':
            k = self.path(op['path'])
            if self.content(k)[0].get('format') == 'DataCube':
                k = self.path(None)
            self.close(k)
            n = int(np.prod(op['shape']))
            values = [(7 * i + 3) % 1000 for i in range(n)]
            images = np.array(values, dtype=op['dtype']).reshape(op['shape'])
            _, err = common.attempt(io.save_stem_images, self.files[k]['path'], images, op['names'])
            t.emit('SaveStem', path=k + 1, shape=op['shape'], values=values, names=op['names'],
                   kind='Error' if err else 'Value', exception=err or '', file=self.content(k)[0])
        elif o == 'Open':
            if not self.files:
                return
            k = op['path'] % len(self.files)
            c, _ = self.content(k)
            # Other files are not raw files
            if c.get('format') != 'Frame' or not (c['scan'] or c['stem']['shape']):
                return
            if k not in self.open:
                self.open[k] = h5py.File(self.files[k]['path'], 'r')
            with contextlib.redirect_stdout(open(os.devnull, 'w')):
                r, err = common.attempt(io.reader, self.open[k])
            t.emit('Open', path=k + 1, kind='Error' if err else 'Value')
            self.new_reader(r, self.files[k]['n'], k)
        elif o == 'Make':
            a = self.data(op)
            self.new_reader(io.PyReader(a, op['positions'], tuple(op['scan']), op['size'],
                                        op['total']), 1, None)
            t.emit('Make', shape=op['shape'], frames=[[x] for x in op['frames']], scan=op['scan'],
                   positions=op['positions'], size=op['size'], total=op['total'])
        elif not self.readers:
            return
        elif o in ('Read', 'Iter'):
            h, r, _, n = self.readers[op['h'] % len(self.readers)]
            try:
                b = r.read() if o == 'Read' else next(r)
            except StopIteration:
                b = None
            except Exception as e:  # noqa: BLE001
                t.emit('Read', h=h, kind='Error', exception=type(e).__name__)
                return
            if b is None:
                t.emit('Read', h=h, kind='End')
                return
            x = b.header
            self.held.append((b, n))
            t.emit('Read', h=h, kind='Block', block={
                'images': x.images_in_block, 'numbers': common.ints(x.image_numbers),
                'frames': [self.project(y, n) for y in b.data],
                'dims': common.ints(x.frame_dimensions), 'shape': common.ints(b.data.shape),
                'scan': common.ints(x.scan_dimensions)})
        elif o == 'Reset':
            h, r, _, n = self.readers[op['h'] % len(self.readers)]
            r.reset()
            t.emit('Reset', h=h)
        else:
            raise ValueError(o)

    def new_reader(self, r, n, k):
        self.count = getattr(self, 'count', 0) + 1
        self.readers.append((self.count, r, k, n))

    def run(self):
        paths = sectors.write(self.case, self.d, self.tags)
        self.t.emit('New', **sectors.new_event(self.case))
        self.sector = None
        if paths:
            from stempy.io import reader
            self.sector = reader(paths, version=self.case['version'])
        for op in self.case['ops']:
            self.op(op)
        for k in list(self.open):
            self.close(k)
        self.readers = None
        gc.collect()
        self.t.emit('Held', frames=[[self.project(y, n) for y in b.data] for b, n in self.held])


@contextlib.contextmanager
def silence():
    """The HDF5 library writes to the standard error"""
    old, null = os.dup(2), os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 2)
    try:
        yield
    finally:
        os.dup2(old, 2)
        os.close(old)
        os.close(null)


if __name__ == '__main__':
    common.main(lambda case, t, d: Run(case, t, d).run())
