"""Reconstructions of phases; see TracePhase.

case: {ops: [{com, tiles, turns, flip, reg, dtype, order, default}]}
"""
import math

import common
import numpy as np

SCALE = {0: 1600, 1: 2210, 2: 19720}


def run(case, t, d):
    from stempy.image import phase_from_com
    t.emit('New')
    for o in case['ops']:
        tile = np.array(o['com'])
        com = np.tile(tile, [1] + o['tiles']).astype(o['dtype'])
        if o['order'] == 'F':
            com = np.asfortranarray(com)
        elif o['order'] == 'strided':
            big = np.full([x * 2 for x in com.shape], 7, dtype=com.dtype)
            big[::2, ::2, ::2] = com
            com = big[::2, ::2, ::2]
        elif o['order'] == 'subclass':
            com = com.view(Sub)
        before = np.array(com)
        kw = {}
        turns = o['turns'] - 4 * o['winding']
        if o['turns'] or not o['default']:
            kw['theta'] = turns * math.pi / 2
        if o['flip'] or not o['default']:
            kw['flip'] = o['flip']
        if o['reg'] or not o['default']:
            kw['reg'] = 2 * math.pi * o['reg'] / 16
        res, kind = None, 'Done'
        try:
            res = phase_from_com(com, **kw)
        except (ValueError, TypeError, IndexError) as e:
            kind = type(e).__name__
        ev = {k: o[k] for k in ('com', 'tiles', 'turns', 'flip', 'reg')}
        if kind == 'Done':
            f = 2 * math.pi * tile.shape[1] * tile.shape[2] * SCALE[o['reg']]
            res = np.asarray(res)
            ok = res.dtype.kind == 'f' and np.isfinite(res).all() and abs(res * f).max() < 2**31 - 1
            ev.update(shape=list(res.shape), phase=np.rint(res * f).astype(int).tolist() if ok else
                      [[2**30] * tile.shape[2]], unchanged=bool((com == before).all()))
        t.emit('Phase', kind=kind, **ev)


class Sub(np.ndarray):
    """Like ImageArray"""


if __name__ == '__main__':
    common.main(run)
