"""Writes the sector files of a case and projects frames onto the tags of sectors.

case: {version, size, scan: [w, h], scan_number,
       files: [{sector, bytes, name?, records: [{frame, x, y, tag}]}]}
"""
import os

import numpy as np

import common
import fmt


def shape(case):
    n = case['size']
    return (n, n // 4) if case['version'] == 4 else (n // 4, n)


def write(case, d, tags, pixels=None):
    """pixels(record, sector): the data of a sector; by default the tag's pattern"""
    paths = []
    for i, f in enumerate(case['files']):
        name = f.get('name') or 'data_module%03d_part%d.data' % (f['sector'], i)
        p = os.path.join(d, name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        out = []
        for r in f['records']:
            data = (tags.make(r['tag'], shape(case)) if pixels is None
                    else pixels(r, f['sector']))
            assert data.shape == shape(case)
            head = fmt.v3_block(case.get('scan_number', 7), r['frame'], case['scan'],
                                (r['x'], r['y']), np.zeros((0,), '<u2'))
            out.append(head + np.ascontiguousarray(data, dtype='<u2').tobytes())
        with open(p, 'wb') as fp:
            fp.write(b''.join(out)[:f['bytes']])
        paths.append(p)
    return paths


def tags_of(case, tags, frame):
    """The tags of the four sectors of a frame."""
    if frame.shape != (case['size'], case['size']):
        return [-2] * 4
    return [tags.of(fmt.sector_of(frame, s, case['version'])) for s in range(4)]


def new_event(case):
    return {'size': case['size'], 'version': case['version'], 'scan': case['scan'],
            'files': [{'sector': f['sector'], 'bytes': f['bytes'], 'records': f['records']}
                      for f in case['files']]}
