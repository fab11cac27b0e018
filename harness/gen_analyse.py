"""Random histories for spec Analyse."""


def cfg(r):
    k = r.choice(['hit'] * 4 + ['eta'] * 2 + ['adaptive'] * 3 + ['cutoff', 'hist', 'file', 'noise', 'ident'])
    dts = ['', '', 'f8', 'f4', 'i4', 'u1'] if k != 'eta' else ['', 'f8']
    lo, hi = 0, 0
    if k == 'adaptive':
        lo, hi = r.randint(0, 3), r.randint(0, 3)
    if k == 'cutoff':
        lo, hi = r.choice([99, r.randint(0, 12)]), r.choice([99, r.randint(0, 20)])
    return {'kind': k, 'n': r.randint(1, 5), 'gap': r.choice([0, 1, 1, 2, 3, 5]), 'i': r.choice([0, 0, 1, 2]), 'dt': r.choice(dts),
            'lo': lo, 'hi': hi, 'mul': r.random() < .5}


class Gen(object):
    def __init__(self, r, c):
        self.r, self.c, self.w = r, c, c['i'] or r.randint(1, 3)
        self.dt = c['dt'] or r.choice(['f8', 'f8', 'f4', 'i8'] if c['kind'] != 'eta' else ['f8'])
        self.top = r.choice([4, 12, 60]) if c['kind'] != 'eta' else 5
        self.trains = r.randint(1, 5)
        self.len = r.choice([2, 5, 12])

    def x(self):
        r, w = self.r, self.w
        if r.random() < .04:
            w += 1
        n = r.randint(1, self.len) if r.random() < .96 else 0
        lo = 1 if self.dt == 'u1' else -self.top
        return {'x': [[r.randint(lo, self.top) for _ in range(w)] for _ in range(n)], 'cols': w,
                'dt': self.dt if r.random() < .8 else 'f8' if self.c['kind'] == 'eta' or r.random() < .5 else 'i8' if self.dt != 'u1' else 'u1'}

    def op(self, k, d):
        r, kind = self.r, self.c['kind']
        if d.node is None:
            return {'t': 'new'}
        if kind not in ('cutoff', 'noise', 'ident') and k <= self.trains and r.random() < .95:
            return {'t': 'train', 'x': self.x()}
        t = r.choice(['execute'] * 3 + ['stop', 'train'] + (['maxima'] * 3 + ['minima'] * 3 if kind == 'hit' else ['eta'] * 3 if kind == 'eta' else []))
        return {'t': t, 'x': self.x()} if t in ('execute', 'train') else {'t': t}
