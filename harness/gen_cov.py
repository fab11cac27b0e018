"""Random histories for spec Cov."""


def cfg(r):
    k = r.choice(['cov', 'delay', 'cross', 'vart', 'multi'])
    n = r.randint(2, 4)
    return {'kind': k, 'bias': r.random() < .5, 'dt': r.choice(['', 'f8', 'f8', 'f4']) if k != 'multi' else '', 'lag': r.randint(0, 5) if k == 'delay' else 0,
            'covs': [[[64 * r.randint(-4, 4) for _ in range(n)] for _ in range(n)] for _ in range(r.randint(1, 3))] if k == 'multi' else []}


class Gen(object):
    def __init__(self, r, c):
        self.r, self.c, self.first, self.sym = r, c, True, 0
        self.w, self.w2 = r.randint(1, 3), r.randint(1, 3)
        self.total = 0

    def op(self, k, d):
        r, c = self.r, self.c
        if k == 0:
            return {'t': 'new'}
        if c['kind'] == 'multi':
            return self.multi()
        if self.total and r.random() < .22 or self.total > 20:
            self.first, self.total = True, 0
            a = [[r.randint(-2, 2) for _ in range(self.w)] for _ in range(self.w)] if c['kind'] == 'delay' and r.random() < .5 else []
            return {'t': 'fix', 'center': r.random() < .6 if c['kind'] in ('cov', 'vart') else True, 'A': a}
        n = r.randint(1, 6)
        dt = r.choice(['f8', 'f8', 'f4'])
        rows = lambda n, w: [[r.randint(-6, 9) for _ in range(w)] for _ in range(n)]
        op = {'t': 'update', 'x': rows(n, self.w), 'dt': dt, 'y': [], 'dt2': '', 'dk': 'none', 'inc': [], 'td': True}
        if c['kind'] == 'cross':
            op['y'], op['dt2'] = rows(n if r.random() < .9 else n + 1, self.w2), dt if r.random() < .8 else 'f8'
        if c['kind'] == 'vart':
            op['td'] = r.random() < .6
            op['dk'] = r.choice(['none', 'const', 'seq', 'seq'])
            if op['dk'] == 'const':
                op['inc'] = [r.randint(1, 4)]
            elif op['dk'] == 'seq':
                m = n - 1 if self.first or not op['td'] else n
                if r.random() < .1 and (op['td'] or self.first):
                    m += r.choice([-1, 1])
                op['inc'] = [r.randint(1, 4) for _ in range(max(m, 0))]
            if op['dk'] == 'none' and not op['td'] and n == 1 and self.first:
                return self.op(k, d)
        fails = c['kind'] == 'cross' and (len(op['y']) != n) or c['kind'] == 'delay' and n < c['lag'] + 1
        steps = {'delay': n - c['lag'], 'vart': n - 1}.get(c['kind'], n)
        if not fails:
            self.total += max(steps, 0)
            self.first = False
        return op

    def multi(self):
        r, c = self.r, self.c
        n = len(c['covs'][0])
        t = r.choice(['sym', 'weight', 'rotate', 'permute', 'transform', 'copy', 'swap'])
        op = {'t': t}
        i, j = r.sample(range(1, n + 1), 2)
        if t == 'sym':
            self.sym += 1
            if self.sym > 5:
                return self.multi()
        elif t == 'weight':
            one = r.random() < .3
            m = 1 if one else len(c['covs']) + (r.random() < .1)
            op.update(one=one, w=[r.choice([1, -1, 2]) for _ in range(m)])
        elif t == 'rotate':
            op.update(q=r.randint(0, 5), i=i, j=j)
        elif t == 'permute':
            op.update(i=i, j=j)
        elif t == 'transform':
            op['m'] = [[(a == b or r.random() < .2) * r.choice([1, -1]) for b in range(n)] for a in range(n)]
        return op
