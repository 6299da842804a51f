"""P02: the single pass reader of the sector formats."""
import random

from sectorcases import concretize, random_layout


def ensure_captured(case):
    """data_captured() needs a complete sector (and a scan that is not too large to
    invert the ratio)"""
    if case['scan'][0] * case['scan'][1] > 10000 or not any(f['bytes'] >= 16 + case['size'] ** 2 // 2 for f in case['files']):
        case['ops'] = [o for o in case['ops'] if o != 'Captured']
    return case


def run(c):
    rng = random.Random(c.seed)
    c.background(c.mc, 'SectorReaderImpl',
                 c.pick('SectorReaderImplQuick.cfg', 'SectorReaderImpl.cfg'))
    small = c.build('small')
    scripts = c.gen('GenSectorReader',
                    c.pick('GenSectorReader.cfg', 'GenSectorReaderThorough.cfg'))
    rng.shuffle(scripts)
    cases = []
    for k, s in enumerate(scripts[:c.pick(4000, 60000)]):
        lay = [(i, list(f)) for i, f in enumerate(s['files'])]
        rng.shuffle(lay)
        case = concretize(rng, lay, version=4 + k % 2, truncate=.3)
        case['ops'] = ['Iter' if o == 'Read' and rng.random() < .2 else o for o in s['ops']]
        cases.append(ensure_captured(case))
    c.conform('d_sector.py', 'TraceSectorReader', cases, small)

    def longer(n, size, frames):
        cases = []
        for k in range(n):
            nf = rng.randint(1, frames)
            lay = random_layout(rng, nf, rng.choice([1, 1, 2, 3]), rng.choice([0, .05, .3]),
                                rng.choice(['sorted', 'near', 'shuffled']))
            case = concretize(rng, lay, version=4 + k % 2, size=size)
            ops = []
            while len(ops) < nf + 4:
                ops.append(rng.choice(['Read'] * 12 + ['Iter'] * 4 + ['Reset', 'Captured']))
            if rng.random() < .5:
                ops = ['Read'] * rng.randint(0, nf) + ['Reset'] + ['Read'] * (nf + 2)
            case['ops'] = ops
            cases.append(ensure_captured(case))
        return cases

    c.conform('d_sector.py', 'TraceSectorReader', longer(c.pick(160, 1500), 8, 30), small)
    full = c.build('full')
    c.conform('d_sector.py', 'TraceSectorReader', longer(c.pick(8, 40), 576, 5), full)
