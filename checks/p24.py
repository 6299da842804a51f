"""P24: calls from several Python threads."""
import random

import imagecases as ic
import p01
from electroncases import direct_op, file_case, file_ops, frames_case
from p02 import ensure_captured
from sectorcases import concretize, random_layout

CALLS = ['stem array', 'stem wide array', 'stem reader', 'stem converted', 'stem file',
         'stem sparse', 'stem list', 'stem counted', 'stem raw', 'radial sum',
         'radial sum file', 'average', 'maximum', 'maximum dark', 'histogram', 'count',
         'count converted', 'count rows', 'count rows mean', 'count file', 'count samples', 'count average', 'thresholds',
         'thresholds gain', 'thresholds converted', 'thresholds gain only',
         'thresholds gain converted', 'thresholds only', 'com', 'com v0', 'com dense',
         'radial sum sparse', 'sum sparse', 'dark field', 'mask', 'phase', 'bin frames',
         'bin scans', 'slice', 'crop', 'dense', 'sum', 'max', 'min', 'mean', 'save', 'load']
# Those that are executed without the lock of the interpreter
RELEASED = [x for x in CALLS if x.split()[0] in ('stem', 'radial', 'average', 'maximum',
                                                 'histogram', 'count', 'thresholds')]

LONG = ['stem array', 'stem wide array', 'stem reader', 'stem sparse', 'stem counted',
        'radial sum', 'average', 'maximum', 'maximum dark', 'histogram', 'count rows',
        'count rows mean', 'count', 'com', 'com dense', 'radial sum sparse', 'phase']


def images(rng):
    kinds = ic.READERS + ic.SPARSE + ('array', 'h5')
    case = ic.source(rng, rng.choice(kinds), unique=True)
    names = ['Stem']
    if case['kind'] in ic.READERS:
        names += ['RadialSum', 'Average', 'Maximum', 'Histogram', 'Reset']
    return ic.calls(rng, case, [rng.choice(names) for _ in range(4)])


def counting(rng):
    k = rng.randrange(1 << 20)
    if rng.random() < .5:
        case = file_case(rng, rng.choice(['threaded', 'multi-pass']), rng.choice([1, 3, 8]), k)
        case['ops'] = file_ops(rng, case, rng.choice([1, 2]))
        for op in case['ops']:
            op['options']['samples'] = 5
        return case
    api = rng.choice(['py', 'v1', 'v3'])
    w, h = (8, 8) if api == 'v3' else (rng.randint(3, 9), rng.randint(3, 9))
    frames = [[rng.randint(1, 60) for _ in range(w * h)] for _ in range(rng.randint(1, 6))]
    case = frames_case(rng, api, w, h, frames)
    case['ops'] = [direct_op(rng, frames, w, h, case['scan'], 60) for _ in range(3)]
    return case


def stream(rng):
    files = [{'blocks': b, 'cut': rng.choice(['no', 'no', 'header', 'data']) if b else 'no'}
             for b in (rng.randint(0, 4) for _ in range(rng.randint(1, 4)))]
    return p01.concretize(rng, rng.choice([1, 3]), 8, files,
                          [rng.choice(['Read', 'Read', 'Iter', 'Reset']) for _ in range(15)])


def sector(rng):
    lay = random_layout(rng, rng.randint(1, 12), rng.choice([1, 2]), rng.choice([0, .2]))
    case = concretize(rng, lay, version=rng.choice([4, 5]))
    case['ops'] = [rng.choice(['Read', 'Read', 'Iter', 'Read', 'Reset']) for _ in range(15)]
    return ensure_captured(case)


def shared(rng):
    threads = rng.choice([2, 3, 4])
    pool = rng.sample(rng.choice([CALLS, RELEASED]), rng.choice([1, 2, 4, 8]))
    return {'mode': 'shared', 'seed': rng.randrange(1 << 30),
            'dims': [rng.choice([8, 10, 20]) for _ in range(2)],
            'scan': rng.choice([[2, 2], [4, 2], [2, 6], [12, 12]]), 'frames': rng.choice([1, 2]),
            'density': rng.choice([.02, .2]), 'mean': rng.choice([20, 28]),
            'switch': rng.choice([1e-6, 1e-5, 1e-4]),
            'threads': [[rng.choice(pool) for _ in range(rng.choice([4, 12, 40]))]
                        for _ in range(threads)]}


def large(rng):
    """Calls that take longer, of a few functions with different arguments"""
    case = shared(rng)
    pool = rng.sample(LONG, rng.choice([2, 3, 4]))
    case.update(dims=[rng.choice([100, 130]) for _ in range(2)], scan=[2, 2], density=.02,
                threads=[[rng.choice(pool) for _ in range(12)] for _ in range(4)])
    return case


def run(c):
    rng = random.Random(c.seed)
    for x in c.pick(['Quick'], ['Quick', 'Thorough', 'Workers']):
        c.background(c.mc, 'Threads', f'Threads{x}.cfg')
    gil = c.build('gil')
    cases = [shared(rng) for _ in range(c.pick(160, 3000))]
    cases += [large(rng) for _ in range(c.pick(60, 500))]
    # Each of the calls by several threads
    for x in CALLS:
        case = shared(rng)
        case['threads'] = [[x] * 12] * 3
        cases.append(case)
    rng.shuffle(cases)
    c.conform('d_threads.py', 'TraceThreads', cases, gil, confirm=6)

    def parts(driver, module, part, n):
        cases = [{'mode': 'parts', 'driver': driver, 'switch': rng.choice([1e-6, 1e-5, 1e-4]),
                  'parts': [part(rng) for _ in range(rng.choice([2, 3, 4]))]}
                 for _ in range(n)]
        c.conform('d_threads.py', module, cases, gil, confirm=6)

    parts('d_images', 'TraceImages', images, c.pick(100, 2000))
    parts('d_electron', 'TraceElectronCount', counting, c.pick(60, 1500))
    parts('d_stream', 'TraceStreamReader', stream, c.pick(60, 1000))
    parts('d_sector', 'TraceSectorReader', sector, c.pick(60, 1000))
    c.assumptions.append('the schedules are those that short switch intervals of the interpreter '
                         'produce; that counts of references are changed with the lock is '
                         'checked by pybind11 at each change')
