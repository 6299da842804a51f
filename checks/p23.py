"""P23: HDF5 files."""
import random
from math import prod

TYPES = ['Int8', 'Int16', 'Int32', 'Int64', 'UInt8', 'UInt16', 'UInt32', 'UInt64', 'Float',
         'Double']
NAMES = ['a', 'b', 'data', 'x y']
ATTRS = ['u', 'v', 'a']


class Script:
    """Operations that are likely to succeed: what may exist is remembered"""

    def __init__(self, rng):
        self.rng, self.ops, self.write = rng, [], False
        self.clear()

    def clear(self):
        # The groups and data sets that exist, for blocks and types that fit
        self.data, self.real, self.used = {}, {()}, {()}
        self.groups, self.attrs = [[]], []

    def path(self, data=.5):
        rng = self.rng
        if self.data and rng.random() < data:
            return list(rng.choice(list(self.data)))
        if rng.random() < .15:
            return rng.choice(self.groups) + [rng.choice(NAMES) for _ in range(rng.choice([1, 2]))]
        return list(rng.choice(self.groups))

    def new(self):
        rng = self.rng
        g = rng.choice(self.groups)
        if rng.random() < .1:
            g = self.path()
        return g + [rng.choice(NAMES)]

    def values(self, n):
        return [self.rng.randrange(6) for _ in range(n)]

    def dims(self):
        rng = self.rng
        return [rng.choice([1, 2, 3, 5]) for _ in range(rng.choice([1, 1, 2, 2, 3]))]

    def type(self, p):
        if self.rng.random() < .1:
            return self.rng.choice(TYPES)
        d = self.data.get(tuple(p))
        return d[0] if d and d[0] in TYPES else self.rng.choice(TYPES)

    def block(self, dims, strided):
        rng = self.rng
        start = [rng.randrange(n) for n in dims] if rng.random() < .7 else []
        strides = [rng.choice([1, 1, 2, 3]) for n in dims] if strided and rng.random() < .7 else []
        s, k = start or [0] * len(dims), strides or [1] * len(dims)
        if rng.random() < .7:
            counts = [rng.randint(1, (n - a + b - 1) // b) for n, a, b in zip(dims, s, k)]
            if dims and rng.random() < .07:
                counts[rng.randrange(len(dims))] += rng.choice([1, 4])
        else:
            counts = []
            if strides and any((n - a) // b == 0 for n, a, b in zip(dims, s, k)):
                strides = []
        return start, strides, counts

    def step(self):
        rng = self.rng
        op = rng.choice(['CreateGroup', 'Write', 'Write', 'Create', 'Update', 'Update',
                         'SetAttribute', 'SetAttribute'] * 2 + ['ReadOne', 'ReadAll', 'Read', 'Read',
                         'Read', 'Attribute', 'Attribute', 'Query', 'Query'])
        o = {'op': op}
        if op == 'CreateGroup':
            o['path'] = self.new()
            if self.write and tuple(o['path'][:-1]) in self.real and tuple(o['path']) not in self.used:
                self.used.add(tuple(o['path']))
                self.real.add(tuple(o['path']))
            if len(o['path']) < 4:
                self.groups.append(o['path'])
        elif op in ('Write', 'Create'):
            o['path'] = self.new()
            o['type'], o['dims'] = rng.choice(TYPES), self.dims()
            if op == 'Write':
                if rng.random() < .05:
                    o['dims'][rng.randrange(len(o['dims']))] = 0
                o['values'] = self.values(prod(o['dims']))
                o['how'] = rng.choice(['vector', 'pointer', 'void'])
            else:
                o['chunk'] = ([rng.randint(1, n) for n in o['dims']] if rng.random() < .6 else [])
                if o['chunk'] and rng.random() < .1:
                    o['chunk'][0] += 2
            if self.write and tuple(o['path'][:-1]) in self.real and tuple(o['path']) not in self.used \
                    and all(c <= n for c, n in zip(o.get('chunk', []), o['dims'])):
                self.used.add(tuple(o['path']))
                self.data[tuple(o['path'])] = o['type'], o['dims']
        elif op in ('Update', 'Read'):
            if not self.data:
                return
            p = rng.choice(list(self.data))
            t, dims = self.data[p]
            if op == 'Update' and (t not in TYPES or 0 in dims or not dims):
                return
            o['path'], o['type'] = list(p), self.type(p) if op == 'Read' else t
            o['start'], strides, o['counts'] = self.block(dims, op == 'Read') \
                if dims and 0 not in dims else ([], [], [])
            k, s = strides or [1] * len(dims), o['start'] or [0] * len(dims)
            n = prod(o['counts'] or [(x - a) // b for x, a, b in zip(dims, s, k)])
            if op == 'Update':
                o['dims'], o['values'] = dims, self.values(n)
            else:
                o.update(strides=strides, n=n, how='block')
                if rng.random() < .2:
                    o.update(start=[], strides=[], counts=[], n=prod(dims), how='pointer')
        elif op in ('ReadOne', 'ReadAll'):
            o['path'] = self.path(.8)
            o['type'] = self.type(o['path'])
        elif op == 'SetAttribute':
            o['path'] = self.path()
            o['name'] = rng.choice(ATTRS)
            o['type'] = rng.choice(TYPES + ['String'] * 4)
            o['scalar'] = rng.random() < .5
            o['values'] = [rng.randrange(5)] if o['type'] == 'String' else \
                self.values(rng.choice([1, 1, 1, 2, 4]))
            self.attrs.append((o['path'], o['name'], o['type']))
        elif op == 'Attribute':
            if not self.attrs or rng.random() < .1:
                self.attrs.append((self.path(), rng.choice(ATTRS), rng.choice(TYPES)))
            p, n, t = rng.choice(self.attrs)
            if rng.random() < .1 or t == 'Other':
                t = rng.choice(TYPES + ['String'])
            o.update(path=p, name=n, type=t)
        elif op == 'Query':
            o.update(path=self.path(), attributes=ATTRS)
        self.ops.append(o)

    def foreign(self):
        rng = self.rng
        self.clear()
        seen, out = {()}, []

        def attrs(p):
            r = []
            for a in rng.sample(ATTRS, rng.choice([0, 1, 2, 3])):
                t = rng.choice(TYPES + ['String'] * 5 + ['Other'])
                n = rng.choice([1, 1, 2, 3])
                fixed = t == 'String' and rng.random() < .5
                r.append({'name': a, 'type': t, 'scalar': rng.random() < .5, 'fixed': fixed,
                          'values': ([rng.choice([1, 2, 3]) for _ in range(n)] if fixed else
                                     [rng.randrange(5) for _ in range(n)])})
                self.attrs.append((p, a, t))
            return r
        out.append({'path': [], 'kind': 'group', 'attrs': attrs([])})
        for _ in range(rng.choice([1, 3, 6])):
            p = rng.choice(self.groups) + [rng.choice(NAMES)]
            if tuple(p) in seen:
                continue
            seen.add(tuple(p))
            if rng.random() < .4 and len(p) < 4:
                self.groups.append(p)
                out.append({'path': p, 'kind': 'group', 'attrs': attrs(p)})
                continue
            t, dims = rng.choice(TYPES + ['Other', 'String']), self.dims()
            if rng.random() < .1:
                dims = []  # a scalar
            n = prod(dims)
            self.data[tuple(p)] = (t, dims)
            out.append({'path': p, 'kind': 'data', 'type': t, 'dims': dims, 'attrs': attrs(p),
                        'values': [rng.randrange(5) for _ in range(n)]})
            if dims and rng.random() < .3:
                out[-1]['chunk'] = [rng.randint(1, x) for x in dims]
        self.ops.append({'op': 'Foreign', 'content': out})


def script(rng):
    s = Script(rng)
    for _ in range(rng.choice([1, 2])):
        if rng.random() < .3:
            s.foreign()
        else:
            s.clear()
            s.ops.append({'op': 'Open', 'write': True})
            s.write = True
            for _ in range(rng.choice([8, 25])):
                s.step()
            s.ops.append({'op': 'Close', 'delete': rng.random() < .5})
            s.ops.append({'op': 'Dump'})
            s.write = False
        for _ in range(rng.choice([0, 0, 2])):
            s.step()
        if rng.random() < .8:
            s.ops.append({'op': 'Open', 'write': False})
            for _ in range(rng.choice([5, 15])):
                s.step()
            s.ops.append({'op': 'Close', 'delete': rng.random() < .5})
            s.ops.append({'op': 'Dump'})
    return {'ops': s.ops}


def run(c):
    rng = random.Random(c.seed)
    c.background(c.mc, 'H5FilesMC', f'H5Files{c.pick("Quick", "Thorough")}.cfg')
    lib = c.build('h5')
    cases = [script(rng) for _ in range(c.pick(500, 8000))]
    c.conform('d_h5.py', 'TraceH5Files', cases, lib)
