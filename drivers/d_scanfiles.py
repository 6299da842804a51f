"""Lookups of scan files in a directory; see TraceScanFiles.

case: {ops: [[create | remove, file] | [junk, name] | [lookup, query, how]]}
"""
import os
from pathlib import Path

import common

ERRORS = ('ValueError', 'TypeError', 'FileNotFoundError', 'NotImplementedError')


def name(f, day):
    end = f['suffix'] + ('.emd' if f['suffix'] == '_offsets' else '.h5')
    if f['v'] == 1:
        # The date and time are those of the scan, or the same for all of them
        date, time = (f['id'] % 97, f['num'] % 2400) if not day else (day, day)
        return (f"FOURD_{240000 + date}_{time:04d}"
                f"_{f['id']:05d}_{f['num']:05d}{end}")
    n = f"data_scan{f['num']}"
    if f['id'] >= 0:
        n += f"_id{f['id']}"
    if f['th'] >= 0:
        n += f"_th{f['th']}"
    return n + '_electrons' + end


def run(case, t, d):
    from stempy import contrib
    t.emit('New')
    names = {}
    day = case.get('day', 0)
    suffixes = {s.value: s for s in contrib.FileSuffix}

    def value(v):
        return -1 if v is None else v

    for o in case['ops']:
        if o[0] == 'junk':
            open(os.path.join(d, o[1]), 'w').close()
        elif o[0] == 'create':
            names[name(o[1], day)] = o[1]
            open(os.path.join(d, name(o[1], day)), 'w').close()
            t.emit('Create', file=o[1])
        elif o[0] == 'remove':
            if names.pop(name(o[1], day), None):
                os.remove(os.path.join(d, name(o[1], day)))
                t.emit('Remove', file=o[1])
        else:
            q = o[1]
            where = str(d) if o[2] == 'str' else Path(d)
            kw = {k: q[s] for k, s in (('scan_num', 'num'), ('scan_id', 'id'), ('th', 'th'),
                                       ('version', 'version')) if q[s] >= 0}
            if q['suffix'] or o[2] == 'explicit':
                kw['file_suffix'] = suffixes[q['suffix']]
            got, err = common.attempt(contrib.get_scan_path, where, **kw)
            if err:
                out = {'kind': 'Error', 'error': err if err in ERRORS else 'other: ' + err}
            else:
                p, num, i = got
                out = {'kind': 'Found', 'file': names.get(Path(p).name, 'none'),
                       'num': value(num), 'id': value(i)}
                if Path(p).parent != Path(d):
                    out['file'] = 'elsewhere'
            t.emit('Lookup', query=q, out=out)


if __name__ == '__main__':
    common.main(run)
