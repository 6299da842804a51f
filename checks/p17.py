"""P17: analysis of counted data."""
import random


def array(r):
    big = r.random() < .1
    scan = [r.choice([1, 2, 3, 4]), r.choice([1, 2, 3])]
    shape = [r.choice([300, 256, 120, 40]) if big else r.choice([1, 2, 3, 4, 6, 8, 12])
             for _ in range(2)]
    if max(shape) < 2:
        shape[r.randrange(2)] = 2
    per = r.choice([1, 1, 2, 3])
    n = shape[0] * shape[1]
    # Centers of mass of more electrons do not fit in the integers of TLC
    most = 3 if big else 30
    p = r.choice([0, .05, .3, 1])
    data = []
    for _ in range(scan[0] * scan[1]):
        data.append([[] for _ in range(per)])
        if r.random() < .8:
            for f in data[-1]:
                k = min(n, r.randint(0, most))
                f.extend(r.sample(range(n), k) if p < 1 else range(n if not big else 0))
                if p == 0 and r.random() < .7:
                    del f[:]
    c = {'scan': scan, 'shape': shape, 'data': data, 'make': [],
         'items': r.choice(['uint32', 'uint32', 'int64', 'strided'])}
    scan, shape = list(scan), list(shape)
    while r.random() < .3:
        k = r.choice(['bin_frames', 'bin_scans', 'slice', 'crop'])
        if k == 'bin_frames':
            f = r.choice([f for f in (1, 2, 3, 4) if shape[0] % f == 0 and shape[1] % f == 0])
            if max(shape) // f < 2:
                continue
            shape[:] = shape[0] // f, shape[1] // f
            c['make'].append([k, f, r.random() < .5])
        elif k == 'bin_scans':
            f = r.choice([f for f in (1, 2, 3) if scan[0] % f == 0 and scan[1] % f == 0])
            scan[:] = scan[0] // f, scan[1] // f
            c['make'].append([k, f, r.random() < .5])
        else:
            m = scan if k == 'slice' else shape
            s = [[r.randrange(v), None, r.choice([1, 1, 2])] for v in m]
            new = [len(range(v)[slice(*x)]) for v, x in zip(m, s)]
            if k == 'crop' and max(new) < 2:
                continue
            m[:] = new
            c['make'].append([k] + s)
    return c, scan, shape


def two(r, n):
    """A doubled coordinate"""
    x = r.choice([0, n - 1, n // 2, r.randrange(n), n + 1])
    return 2 * x + (r.random() < .2)


def call(r, scan, shape):
    k = r.choice(['Com', 'Com', 'Com', 'DarkField', 'RadialSum', 'Sum', 'Mask'])
    o = {'op': k}
    m = max(shape)
    if k == 'Com':
        o.update(version=r.randrange(2), explicit=r.random() < .5, replace=r.random() < .6,
                 crop=r.choice([-1, -1, 0, 2, 4, 6, 2 * m, r.randrange(2 * m), 9]),
                 tuple=r.choice(['no'] * 16 + ['first', 'last', 'list', 'both']), center=[])
        if r.random() < .5:
            o['center'] = [two(r, shape[0]), two(r, shape[1])]
    elif k == 'DarkField':
        o['apertures'] = [[two(r, shape[1]), two(r, shape[0]),
                           r.choice([0, 1, 2, 3, 4, 2 * m, r.randint(0, 2 * m)])]
                          for _ in range(r.choice([1, 1, 2, 3]))]
        o['how'] = r.choice(['number', 'tuple', 'array'])
    elif k == 'RadialSum':
        o['center'] = [two(r, shape[0]), two(r, shape[1])]
    elif k == 'Sum':
        o['flat'] = r.random() < .5
    else:
        o['dtype'] = r.choice(['bool', 'uint8', 'int64', 'float64'])
        n = scan[0] * scan[1]
        o['positions'] = r.sample(range(n), r.randint(0, n))
    return o


def dense(r):
    shape = [r.choice([1, 2, 3, 5, 8]) for _ in range(2)]
    n = shape[0] * shape[1]
    top = r.choice([1, 10, 250, 1000])
    narrow = ['uint8', 'uint8', 'int16'] if top < 256 else ['int16']
    return {'op': 'DenseCom', 'shape': shape, 'flat': r.random() < .5,
            'layout': r.choice('CF'), 'dtype': r.choice(['uint16', 'int64', 'float32', 'float64'] + narrow),
            'frames': [[r.randint(0, top) if r.random() < .9 else 0 for _ in range(n)]
                       if r.random() < .9 else [0] * n for _ in range(r.choice([1, 1, 2, 4]))]}


def filtered(r):
    scan = [r.choice([1, 2, 3, 4, 5]) for _ in range(2)]
    n = scan[0] * scan[1]
    p = r.choice([.1, .2, .5])
    unit = 1024

    def value(bad):
        return unit * (r.choice([0, 1, 99, 100]) if bad else r.randint(20, 80))
    # The medians of medians of medians ... have to be multiples of 1 / unit
    bad = [r.random() < p for _ in range(n)]
    while sum(bad) > 8:
        bad[bad.index(True)] = False
    com = [[unit * r.randint(0, 100) for _ in range(n)], [value(b) for b in bad]]
    if r.random() < .3:
        q = r.randrange(n)
        com[0][q] = com[1][q] = -1000000000
    return {'op': 'Filter', 'scan': scan, 'com': com, 'low': r.choice([2, 5, 20]) * unit,
            'high': r.choice([80, 98, 90]) * unit, 'dtype': 'float64'}


def run(c):
    rng = random.Random(c.seed)
    c.background(c.mc, 'SparseAnalysisMC', c.pick('SparseAnalysisQuick.cfg',
                                                  'SparseAnalysisThorough.cfg'))
    if not c.quick:
        c.background(c.mc, 'SparseAnalysisMC', 'SparseAnalysisDeep.cfg')
    small = c.build('small')
    cases = []
    for k in range(c.pick(3000, 20000)):
        case, scan, shape = array(rng)
        case['ops'] = [call(rng, scan, shape) for _ in range(rng.choice([2, 4, 6]))]
        cases.append(case)
        if k % 4 == 0:
            cases.append({'ops': [dense(rng), filtered(rng)]})
    # Many electrons per pixel
    for k in range(c.pick(12, 100)):
        n, shape = rng.choice([[10, 10], [30, 9]]), rng.choice([[1, 2], [2, 2], [3, 1]])
        full = list(range(shape[0] * shape[1]))
        case = {'scan': n, 'shape': shape, 'make': [], 'items': 'uint32',
                'data': [[full if rng.random() < .97 else full[:1] for _ in range(3)]
                         for _ in range(n[0] * n[1])]}
        if k % 3 == 0:
            case['make'] = [['bin_scans', rng.choice([5, 10] if n[0] == 10 else [3]), False]]
            n = [x // case['make'][0][1] for x in n]
        while len(case.setdefault('ops', [])) < 4:
            o = call(rng, n, shape)
            if o['op'] != 'Com':
                case['ops'].append(o)
        cases.append(case)
    c.conform('d_analysis.py', 'TraceSparseAnalysis', cases, small)
