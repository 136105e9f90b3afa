import os
import numpy as np
from .lib import *


def run(case):
    import ctypes
    from tensorD.dataproc.reader import TensorReader
    c, g = Ctx(case), case['config']
    if 'path' in g:
        p = os.path.basename(g['path'])
        open(p, 'w').write('0,0,1.0\n')
        raises('file type ' + p, (ctypes.ArgumentError, SyntaxError), lambda: TensorReader(p).read())
        return
    rng = c.rng('file')
    for rep in range(4):
        order = g['order']
        dims = [int(rng.randint(1, 6 if order < 5 else 4)) for _ in range(order)]
        total = int(np.prod(dims))
        n = max(1, min(total, int(rng.randint(1, 9))))
        if rep == 3:
            n = total
        flat = rng.permutation(total)[:n]
        idx = np.stack(np.unravel_index(flat, dims), 1)
        val = np.round(rng.randn(n) * 10 ** rng.randint(-3, 4), 5)
        rows = [','.join([str(int(k)) for k in i] + [repr(float(v))]) for i, v in zip(idx, val)]
        if rep:
            at = sorted(rng.randint(0, len(rows) + 1, size=3), reverse=True)
            for a in at:
                rows.insert(int(a), '')
        d = 'dir.%d' % rep
        os.mkdir(d)
        p = os.path.join(d, 'x.' + g['ext'])
        with open(p, 'w') as f:
            f.write('\n'.join(rows) + ('\n' if rep % 2 else ''))
        r = TensorReader(p)
        if g['shape'] == 'none':
            sh = tuple(int(idx[:, j].max()) + 1 for j in range(order))
            r.read()
        else:
            sh = tuple(int(idx[:, j].max()) + 1 + int(rng.randint(0, 3)) for j in range(order))
            r.read(list(sh) if g['shape'] == 'list' else sh)
        want = np.zeros(sh)
        for i, v in zip(idx, val):
            want[tuple(i)] = v
        exact('rows %s' % rows[:6], ev(r.full_data), want)
