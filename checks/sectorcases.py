"""Concrete sector files."""


def record_size(size):
    return 16 + size * size * 2 // 4


def random_scan(rng, limit=(1 << 31) - 1):
    """Mostly a few positions, to have several frames at each; some are wide"""
    if rng.random() < .75:
        return [rng.randint(1, 4), rng.randint(1, 4)]
    while True:
        scan = [rng.choice([1, 3, 127, 255, 256, 1024, 32767, 32768, 40000, 65535])
                for _ in range(2)]
        if scan[0] * scan[1] <= limit:
            return scan


def concretize(rng, layout, *, size=8, version=5, scan=None, positions=None, truncate=.2,
               numbers='random'):
    """layout: [(sector, [frame, ...]), ...] with frames 1..n, one entry per file"""
    scan = scan or random_scan(rng)
    n = max([f for _, fs in layout for f in fs] or [1])
    if numbers == 'random':
        number = rng.sample(range(0, 3 * n + 3), n)
        x = rng.random()
        if x < .25:
            number = [x + rng.choice([1 << 16, (1 << 31) - 4 * n - 4]) for x in number]
        elif x < .5:
            # Some that differ in their high bits only
            high = [0] + [1 << b for b in (8, 16, 24, 30)]
            number = rng.sample([x + h for x in range(n // 2 + 1) for h in high], n)
    else:
        number = list(range(1, n + 1))
    if positions is None:
        positions = [(rng.choice([0, scan[0] - 1, rng.randrange(scan[0])]),
                      rng.choice([0, scan[1] - 1, rng.randrange(scan[1])])) for _ in range(n)]
        if rng.random() < .3:
            positions = [rng.choice(positions[:2]) for _ in range(n)]
    files, tag = [], 0
    for sector, frames in layout:
        recs = []
        for f in frames:
            tag += 1
            recs.append({'frame': number[f - 1], 'x': positions[f - 1][0],
                         'y': positions[f - 1][1], 'tag': tag})
        b = len(recs) * record_size(size)
        if recs and rng.random() < truncate:
            b -= rng.choice([1, rng.randint(1, record_size(size) - 1), 16,
                             record_size(size) - 16, record_size(size) - 1])
        files.append({'sector': sector, 'bytes': b, 'records': recs})
    return {'version': version, 'size': size, 'scan': list(scan), 'files': files,
            'scan_number': rng.randrange(1 << 20)}


def random_layout(rng, frames, files_per_sector=1, lost=.15, order='near'):
    """Frames in file order: sorted, nearly sorted or shuffled; some sectors lost"""
    lay = []
    for s in range(4):
        parts = [[] for _ in range(files_per_sector)]
        for f in range(1, frames + 1):
            if rng.random() >= lost:
                rng.choice(parts).append(f)
        for p in parts:
            if order == 'shuffled':
                rng.shuffle(p)
            elif order == 'near':
                for _ in range(len(p) // 3):
                    i = rng.randrange(len(p) - 1) if len(p) > 1 else 0
                    if len(p) > 1:
                        p[i], p[i + 1] = p[i + 1], p[i]
            lay.append((s, p))
    rng.shuffle(lay)
    return lay
