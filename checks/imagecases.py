"""Sources of frames and calls of the image functions."""
READERS = ('v1', 'v3', 'py', 'sector')
SPARSE = ('sparsearray', 'tuple', 'tuple1', 'sparse', 'sparse1', 'counted')


def px(r, n):
    k = r.random()
    if k < .15:
        return [65535] * n
    if k < .3:
        return [r.choice([0, 0, 0, 65535]) for _ in range(n)]
    if k < .6:
        return [r.randrange(65536) for _ in range(n)]
    return [r.choice([0, 1, 2, 255, 256, 3, r.randrange(1000)]) for _ in range(n)]


def source(r, kind, *, size=8, lin=False, unique=None, most=6):
    """size: of the frames of the formats that have a fixed one"""
    scan = [r.choice([1, 2, 3, 4]), r.choice([1, 2, 3])]
    n = scan[0] * scan[1]
    c = {'kind': kind, 'scan': scan}
    if kind in ('v3', 'sector'):
        dims = [size, size]
    elif lin:
        dims = r.choice([[300, 220], [230, 290]])
    elif kind == 'counted':
        dims = r.choice([[16, 16], [12, 20], [20, 12]])
        c.update(seed=r.randrange(1 << 30), items='uint32', frames=[])
    else:
        dims = [r.choice([1, 2, 3, 4, 5, 7, 8, 12]) for _ in range(2)]
    c['dims'] = dims
    if kind in SPARSE:
        per = r.choice([1, 1, 2, 3]) if kind in ('sparsearray', 'tuple', 'sparse') else 1
        if kind != 'counted':
            p = r.choice([0, .1, .3, .8, 1])
            c['items'] = r.choice(['uint32', 'uint32', 'int64', 'strided', 'reversed'])
            c['frames'] = [{'pos': i, 'ev': [k for k in range(dims[0] * dims[1])
                                             if r.random() < p]}
                           for i in range(n) for _ in range(per)]
        return c
    k = r.choice([1, n, n, r.randint(1, most), r.randint(1, most)])
    unique = unique if unique is not None else r.random() < .8
    if unique:
        k = min(k, n)
        ps = r.sample(range(n), k)
    else:
        ps = [r.randrange(n) for _ in range(k)]
    if kind == 'array':
        k = min(k, n)
        ps = list(range(k))
        c['layout'] = r.choice(['C', 'F'])
    if kind == 'h5':
        c['positions'] = r.random() < .5
        if not c['positions']:
            k = min(k, n)
            ps = list(range(k))
    if lin:
        c['frames'] = [{'pos': p, 'lin': [r.choice([0, 1, 257, 1000]), r.randrange(65536),
                                          r.choice([65536, 65535, 60000, 7])]} for p in ps]
        for f in c['frames']:
            if r.random() < .4:
                f['lin'] = [0, 65535, 65536]
    else:
        c['frames'] = [{'pos': p, 'px': px(r, dims[0] * dims[1])} for p in ps]
    if kind == 'v1':
        c['blocks'] = chop(r, k)
    elif kind == 'v3':
        c['blocks'] = [1] * k
    else:
        c['block'] = r.choice([1, 2, 3, 32])
        c['blocks'] = [min(c['block'], k - i) for i in range(0, k, c['block'])]
    if kind == 'sector':
        c['version'] = r.choice([4, 5])
        c['order'] = [r.sample(range(k), k) for _ in range(4)]
        if not lin:
            for f in c['frames']:
                if r.random() < .15:
                    f['lost'] = r.sample(range(4), r.choice([1, 2, 3]))
    return c


def chop(r, n):
    out = []
    while sum(out) < n:
        out.append(r.randint(1, n - sum(out)))
    return out


def radii(r, c, n=None):
    m = max(c['dims'])
    n = n or r.choice([1, 1, 2, 3])
    inner = [r.choice([0, 0, 1, 2, r.randint(0, m + 1)]) for _ in range(n)]
    outer = [r.choice([1, 2, 3, m, 2 * m, r.randint(0, m + 1), 46341, 100000]) for _ in range(n)]
    return inner, outer


def center(r, c):
    k = r.random()
    if k < .35:
        return None
    w, h = c['dims']
    x = [r.choice([0, w - 1, w // 2, r.randint(0, w + 1)]),
         r.choice([0, h - 1, h // 2, r.randint(0, h + 1)])]
    if k < .45:
        x[r.randrange(2)] = -1
    if k < .5:
        return [-1, -1]
    return x


def scan_arg(r, c):
    need = c['kind'] in ('v1', 'array', 'sparse', 'sparse1')
    if need:
        k = r.random()
        return None if k < .04 else [0, 0] if k < .06 else c['scan']
    return c['scan'] if r.random() < .3 else [0, 0] if r.random() < .1 else None


def stem(r, c, op='Stem'):
    i, o = radii(r, c)
    if r.random() < .05:
        i, o = r.choice([([], []), (i + [1], o), (i, []), (i, o + [4])])
    x = {'op': op, 'inner': i, 'outer': o, 'plain': r.random() < .5, 'center': center(r, c),
         'scan': scan_arg(r, c)}
    if op == 'Histogram':
        x['bins'] = r.choice([1, 2, 3, 4, 7, 10, 100])
        x['plain'] = False
    return x


def function(r, c, name):
    if name in ('Stem', 'Histogram'):
        return stem(r, c, name)
    if name == 'RadialSum':
        return {'op': name, 'center': center(r, c), 'scan': scan_arg(r, c)}
    x = {'op': name}
    if name == 'Maximum':
        x['dark'] = r.choice(['none', 'average'])
        if x['dark'] == 'average':
            x['derived'] = r.choice(['no', 'no', 'twice', 'half', 'inplace', 'copy', 'changed',
                                     'turned', 'plain', 'padded', 'part', 'larger', 'smaller',
                                     'transposed'])
        x['lins'] = [[r.choice([0, 1, 31]), r.randrange(3000), 65536] for _ in range(2)]
    return x


def change(r, c, a):
    """a: the shapes of the array"""
    (h, w), (fh, fw) = a
    # The images of electron counted data do not see changes of its data attribute
    k = r.choice(['bin_frames', 'bin_scans', 'slice', 'crop', 'reshape']
                 + (['data', 'newdata'] if c['kind'] != 'counted' else []))
    x = {'op': 'Change', 'what': k, 'factor': 1, 'inplace': r.random() < .6}
    if k == 'bin_frames':
        x['factor'] = r.choice([f for f in (1, 2, 3, 4) if fh % f == 0 and fw % f == 0])
        a[1] = (fh // x['factor'], fw // x['factor'])
    elif k == 'bin_scans':
        x['factor'] = r.choice([f for f in (1, 2, 3) if h % f == 0 and w % f == 0])
        a[0] = (h // x['factor'], w // x['factor'])
    elif k in ('slice', 'crop'):
        m = a[0] if k == 'slice' else a[1]
        new = []
        for n, v in zip('ab', m):
            x[n] = [r.randrange(v), r.choice([1, 1, 2])]
            new.append(len(range(v)[x[n][0]::x[n][1]]))
        a[0 if k == 'slice' else 1] = tuple(new)
    elif k == 'reshape':
        a[0], a[1] = (w, h), (fw, fh)
    return x


def calls(r, c, names):
    """names of functions, Read, Reset, Change"""
    ops = []
    a = [tuple(c['scan'][::-1]), tuple(c['dims'][::-1])]
    left = len(c['blocks']) if 'blocks' in c else 0
    reader = c['kind'] in READERS
    n = left
    broken = False
    for x in names:
        if x == 'Reset' or broken:
            ops.append({'op': 'Reset'})
            left, broken = n, False
        if x == 'Reset':
            continue
        if x == 'Read':
            if reader and c['kind'] != 'sector' and left > 0:
                ops.append({'op': 'Read'})
                left -= 1
        elif x == 'Change':
            if c['kind'] in ('sparsearray', 'counted'):
                ops.append(change(r, c, a))
        else:
            if reader and left <= 0 and x in ('Average', 'Maximum'):
                ops.append({'op': 'Reset'})
                left = n
            o = function(r, c, x)
            ops.append(o)
            # It may fail, and the reader is at its end otherwise
            if reader:
                s = o.get('scan') or [0, 0]
                failed = (left <= 0 or x == 'Maximum'
                          or (c['kind'] == 'v1' and 0 in s and x != 'Average')
                          or ('inner' in o and (not o['inner'] or
                                                len(o['inner']) != len(o['outer']))))
                left, broken = 0, failed
    c['ops'] = ops
    return c
