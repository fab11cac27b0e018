"""Random histories for spec Expand."""
FAMS = ['standard_poly', 'legendre_poly', 'legendre_rational', 'chebyshev_poly', 'own_box', 'own_neg']
INV = {2: [([[2, 1], [1, 2]], [[2, -1], [-1, 2]], 3), ([[2, 0], [0, 2]], [[1, 0], [0, 1]], 2), ([[1, 1], [1, 3]], [[3, -1], [-1, 1]], 2)],
       3: [([[2, 0, 0], [0, 3, 0], [0, 0, 1]], [[3, 0, 0], [0, 2, 0], [0, 0, 6]], 6), ([[2, 1, 0], [1, 1, 0], [0, 0, 2]], [[2, -2, 0], [-2, 4, 0], [0, 0, 1]], 2)]}


def cfg(r):
    c = {'kind': r.choice(['poly', 'quad', 'rec', 'norm', 'general', 'rbf']), 'deg': r.randint(1, 5), 'fam': 'standard_poly', 'with0': r.random() < .5,
         'check': r.random() < .5, 'funcs': [], 'i': r.choice([0, 0, 1, 2, 3]), 'dt': r.choice(['', '', 'f8', 'f4']),
         'centers': [], 'sizes': [], 'covs': [], 'invs': [], 'one': False}
    k = c['kind']
    if k in ('rec', 'norm'):
        c['fam'] = r.choice(FAMS)
        c['deg'] = r.choice([1, 2, 2, 3, 3, 4, 5] if c['fam'] != 'legendre_rational' else [1, 2, 2, 3])
        c['dt'] = r.choice(['', 'f8'])
    if k == 'general':
        c['funcs'] = [r.choice(['id', 'sq', 'norm', 'one', 'ends', 'none']) for _ in range(r.randint(1, 4))]
    if k == 'rbf':
        n, m = r.randint(2, 3), r.randint(1, 4)
        c['i'], c['dt'] = 0, r.choice(['', 'f8'])
        c['centers'] = [[r.randint(-3, 3) for _ in range(n)] for _ in range(m)]
        c['one'] = r.random() < .4
        q = 1 if c['one'] else m
        if r.random() < .5:
            c['sizes'] = [r.choice([1, 2, 3, 6]) for _ in range(q)]
        else:
            p = [r.choice(INV[n]) for _ in range(q)]
            c['covs'], c['invs'] = [a for a, _, _ in p], [{'m': b, 'd': d} for _, b, d in p]
    if k in ('poly', 'quad') and r.random() < .2:
        c['dt'] = 'i8'
    return c


class Gen(object):
    def __init__(self, r, c):
        self.r, self.c = r, c
        self.w = (len(c['centers'][0]) if c['centers'] else c['i']) or r.randint(1, 3)
        if c['kind'] == 'norm':
            self.w = c['i'] or r.randint(1, 2)
        self.span = None

    def rows(self, n):
        r, c = self.r, self.c
        lo, hi = (-3, 4)
        if c['fam'] == 'legendre_rational':
            lo, hi = (0, 2)
        return [[r.randint(lo, hi) for _ in range(self.w)] for _ in range(n)]

    def op(self, k, d):
        r, c = self.r, self.c
        if d.node is None:
            return {'t': 'new'} if k == 0 else None
        n = r.randint(1, 4)
        x = {'x': self.rows(n), 'cols': self.w, 'dt': 'f8' if c['kind'] in ('rec', 'norm') else r.choice(['f8', 'f8', 'f4', 'i8'])}
        if x['dt'] == 'i8' and c['kind'] in ('general', 'rbf') and not c['dt']:
            x['dt'] = 'f8'
        t = r.choice(['execute'] * 6 + (['train'] * 4 + ['stop'] if c['kind'] == 'norm' else []) + ['inverse', 'setin', 'setout'])
        if c['kind'] == 'norm':
            if self.span is None and t in ('execute', 'stop') and d.node.is_training():
                t = 'train'
            if t == 'train' and d.node.is_training():
                v = [a for row in x['x'] for a in row] + list(self.span or ())
                self.span = (min(v), max(v))
        if t == 'setin':
            return {'t': t, 'n': self.w + (r.random() < .2)} if c['kind'] != 'norm' else {'t': 'inverse', 'x': x}
        if t == 'setout':
            return {'t': t, 'n': r.choice([7, 8, 12])}
        op = {'t': t, 'x': x}
        if t == 'stop':
            del op['x']
        if t == 'execute':
            op['scale'] = [self.scale(row) for row in x['x']]
            if any(s is None for s in op['scale']):
                return self.op(k, d)
        return op

    def scale(self, row):
        c = self.c
        if c['kind'] == 'rbf':
            return 6
        if c['kind'] not in ('rec', 'norm'):
            return 1
        s = 1
        for v in row:
            a, b = v, 1
            if c['kind'] == 'norm' and c['fam'] in ('legendre_poly', 'chebyshev_poly', 'own_box'):
                lo, hi = self.span
                L, U = (0, 4) if c['fam'] == 'own_box' else (-1, 1)
                if not (hi < U and lo > L):
                    b = 2 if hi - lo < U - L else hi - lo
            q = {'standard_poly': b, 'own_box': b, 'own_neg': b, 'chebyshev_poly': b, 'legendre_poly': 2 * b, 'legendre_rational': 2 * (a + b)}[c['fam']]
            s *= q ** c['deg']
        return s if s < 10 ** 5 else None
