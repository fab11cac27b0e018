"""Random histories for spec Classify."""
KINDS = ['signum', 'perceptron', 'markov', 'hopfield', 'kmeans', 'gauss', 'mean', 'knn', 'cumul']


def cfg(r):
    k = r.choice(KINDS)
    return {'kind': k, 'k': r.choice([1, 2, 3, 3, 5]) if k != 'kmeans' else r.choice([1, 2, 2, 3]),
            'em': r.choice(['', '', 'label', 'prob', 'rank']) if k != 'cumul' else '', 'i': 0,
            'dt': r.choice(['', '', 'f8', 'f4']) if k not in ('hopfield', 'gauss') else '', 'lr': r.choice([1, 1, 2]),
            'mi': r.choice([100, 100, 100, 1, 2]) if k == 'kmeans' else 100,
            'lt': r.choice(['int', 'str', 'frac']) if k not in ('signum', 'perceptron') else 'int'}


def dot(a, b):
    return sum(p * q for p, q in zip(a, b))


class Gen(object):
    def __init__(self, r, c):
        self.r, self.c = r, c
        k = c['kind']
        self.w = r.choice([2, 4, 4]) if k == 'hopfield' else r.choice([1, 1, 2]) if k == 'gauss' else r.randint(1, 3)
        if r.random() < .3:
            c['i'] = self.w
        self.data = []
        self.dts = {'hopfield': ['i1'], 'signum': ['f8', 'i8', 'f4'], 'markov': ['f8', 'i8', 'f4']}.get(k, ['f8', 'f8', 'f4'] if k != 'gauss' else ['f8'])
        self.nl = r.randint(1, 3)
        self.span = r.choice([2, 4, 6])

    def rows(self, n):
        r, k = self.r, self.c['kind']
        if k == 'hopfield':
            return [[r.randint(0, 1) for _ in range(self.w)] for _ in range(n)]
        rows = [[r.randint(0 if k in ('markov',) else -1, self.span if k != 'markov' else 1) for _ in range(self.w)] for _ in range(n)]
        if self.data and r.random() < .3:
            rows[0] = list(r.choice(self.data)[0])
        return rows

    def label(self):
        return self.r.choice([-1, 1]) if self.c['kind'] == 'perceptron' else self.r.randint(0, self.nl - 1)

    def x(self, n):
        w, q = self.w, self.r.random()
        x = {'x': self.rows(n), 'cols': w, 'dt': self.r.choice(self.dts)}
        if q < .04:
            x = {'x': [row + [1] for row in x['x']], 'cols': w + 1, 'dt': x['dt']}
        return x

    def op(self, k, d):
        r, c = self.r, self.c
        kind = c['kind']
        if d.node is None:
            return {'t': 'new'} if k == 0 else None
        labelled = kind not in ('signum', 'hopfield', 'kmeans')
        left = 9 - len(self.data)
        t = 'train'
        if not d.node.is_training() or left <= 0 or r.random() < .2 and (kind != 'gauss' or left < 3):
            t = r.choice(['label'] * 4 + ['prob', 'prob', 'rank', 'rank', 'execute', 'stop', 'train'])
        n = r.randint(1, min(4, max(left, 1)))
        x = self.x(n)
        op = {'t': t, 'x': x}
        if t == 'stop':
            return {'t': t}
        if t == 'train':
            form = r.choice(['one', 'list', 'array', 'array', 'tuple']) if labelled else 'none'
            l = [self.label() for _ in range(1 if form == 'one' else n)] if labelled else []
            if labelled and form != 'one' and r.random() < .04:
                l.append(self.label())
            if kind == 'perceptron' and r.random() < .03:
                l[0] = r.choice([0, 2])
            if d.node.is_training() and x['cols'] == self.w and not (labelled and form != 'one' and len(l) != n):
                self.data += [(row, (l[0] if form == 'one' else l[j]) if labelled else 0) for j, row in enumerate(x['x'])]
            op.update(form=form, l=l)
            return op
        op['thr'] = r.choice([-1, 0, 1000]) if kind != 'hopfield' else r.choice([0, 0, 0, 1, -1])
        if kind == 'hopfield' and t != 'label':
            op['thr'] = 0
        if t == 'execute' and kind != 'hopfield':
            op['thr'] = -1
        op['q'] = []
        if kind == 'gauss' and x['cols'] == self.w:
            op['q'] = self.gauss(x['x'])
            if op['q'] is None:
                return None
        return op

    def gauss(self, xs):
        w, stat = self.w, {}
        for l in sorted({l for _, l in self.data}):
            rows = [x for x, m in self.data if m == l]
            n, m = len(rows), [sum(x[c] for x in rows) for c in range(w)]
            t = [[n * sum(x[a] * x[b] for x in rows) - m[a] * m[b] for b in range(w)] for a in range(w)]
            det, adj = (t[0][0], [[1]]) if w == 1 else (t[0][0] * t[1][1] - t[0][1] ** 2, [[t[1][1], -t[0][1]], [-t[0][1], t[0][0]]])
            stat[l] = n, m, det, adj
        if not stat or any(n < 2 or det == 0 for n, _, det, _ in stat.values()):
            return []
        n0, _, det0, _ = stat[min(stat)]
        res = []
        for x in xs:
            row = []
            for l, (n, m, det, adj) in sorted(stat.items()):
                u = [n * a - b for a, b in zip(x, m)]
                q = [(n - 1) * dot(u, [dot(v, u) for v in adj]), n * det]
                ratio = [n * n * (n * (n - 1)) ** w * det0, n0 * n0 * (n0 * (n0 - 1)) ** w * det]
                row.append([l, q, ratio])
            if any(abs(a[1][0] / a[1][1] - row[0][1][0] / row[0][1][1]) > 200 for a in row) or max(max(a[2]) for a in row) >= 2 ** 31:
                return None
            res.append(row)
        return res
