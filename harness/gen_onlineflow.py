"""Random online flows and histories (spec OnlineFlow)."""


def node(r, kinds, dims=None):
    k = r.choice(kinds)
    d = dims or (r.choice([0, 0, 0, 1]), r.choice([0, 0, 0, 1]))
    if k == 'td' and not d[0]:
        d = (1, d[1])
    return {'k': k, 'n': r.choice([1, 1, 2, 3]) if k != 'nt' else 1, 'args': r.choice([0, 0, 0, 1, 2]) if k != 'nt' else 0,
            'inv': r.random() < .8, 'batch': r.random() < .4, 'dims': list(d)}


def consistent(nodes, q):
    return all(not nodes[a - 1]['dims'][1] or not nodes[b - 1]['dims'][0] or nodes[a - 1]['dims'][1] == nodes[b - 1]['dims'][0]
               for a, b in zip(q, q[1:]))


def cfg(r):
    circ, lists = r.random() < .45, r.random() < .3
    while True:
        n = r.randint(3, 6)
        kinds = ['on', 'on', 'on', 'nt', 'td']
        nodes = [node(r, kinds, (r.choice([0, 1, 2]), r.choice([0, 1, 2])) if lists else None) for _ in range(n)]
        if circ or r.random() < .5:
            for q in nodes:
                q['args'] = 0
        tail = node(r, ['tp'], (1, 1) if lists else None)
        nodes.append(tail)
        init = [r.randint(1, n) for _ in range(r.randint(1, 4))] if lists else r.sample(range(1, n + 1), r.randint(1, min(4, n)))
        if not circ and r.random() < .4:
            init = init + [n + 1]
        if consistent(nodes, init):
            return {'circ': circ, 'nodes': nodes, 'init': init}


class Gen(object):
    def __init__(self, r, c):
        self.r, self.c = r, c
        self.cont = r.random() < .3

    def chunk(self, d, form='x'):
        r = self.r
        c = {'rows': [r.randint(0, 99) for _ in range(r.choice([1, 1, 2, 3]))], 'w': 1 if r.random() < .96 else 2, 'form': form, 'a': []}
        if form == 't':
            ids = d.nums(d.flow)
            if r.random() < .08:
                ids = ids[1:] if r.random() < .5 else ids + [1]
            for i in ids:
                k = self.c['nodes'][i - 1]['args']
                if r.random() < .06:
                    k = r.randint(0, 2)
                c['a'].append([-1] if (not k and r.random() < .6) or r.random() < .03 else [r.randint(0, 9) for _ in range(k)])
        return c

    def data(self, d, train):
        r = self.r
        q = r.random()
        if q < .03 and train:
            return {'k': r.choice(['none', 'nonit']), 'chunks': []}
        need = any(self.c['nodes'][i - 1]['args'] for i in d.nums(d.flow))
        if q < .3 and not (need and r.random() < .8):
            n = r.choice([1, 1, 2, 3])
            k = r.randint(1, 4) if train else 1
            return {'k': 'array', 'chunks': [{'rows': [r.randint(0, 99) for _ in range(n)], 'w': 1, 'form': 'x', 'a': []} for _ in range(k)]}
        form = 't' if train and not self.c['circ'] and (need or r.random() < .2) else 'x'
        return {'k': r.choice(['list', 'list', 'iter']), 'chunks': [self.chunk(d, form) for _ in range(r.choice([0, 1, 1, 2, 3, 4]))]}

    def slice(self, n):
        r = self.r
        return [r.choice([99, r.randint(-n - 1, n + 1)]), r.choice([99, r.randint(-n - 1, n + 1)]), r.choice([99, 99, 99, 1, 2, -1, -2, 0])]

    def op(self, k, d):
        r, c = self.r, self.c
        n, m = len(d.flow), len(c['nodes'])
        if not n:
            return None
        fail = r.randint(1, 12) if r.random() < .12 else 0
        q = r.random()
        if q < (.3 if self.cont else .6):
            t = r.choice(['train'] * 4 + ['execute'] * 2 + ['inverse'] + ['stop'] * (r.random() < .5))
            if t == 'train':
                return {'t': t, 'data': self.data(d, True), 'fail': fail}
            if t == 'stop':
                return {'t': t, 'i': r.randint(1, m)}
            return {'t': t, 'data': self.data(d, False), 'nr': r.choice([-1, -1, r.randint(0, n - 1)]) if t == 'execute' else -1, 'fail': fail}
        if c['circ'] and q < .82:
            t = r.choice(['input', 'input', 'output', 'output', 'reset', 'store', 'ignore', 'iterations', 'iterations'])
            if t == 'store':
                return {'t': t, 'c': dict(self.chunk(d), w=1 if r.random() < .9 else 2)}
            return {'t': t, 'i': r.randint(0, 3) if t == 'iterations' else r.randint(-1, n), 'b': r.random() < .6}
        t = r.choice(['get', 'getsl', 'set', 'set', 'setsl', 'setsl', 'del', 'delsl', 'pop', 'append', 'append', 'extend', 'insert', 'insert', 'add', 'iadd', 'contains'])
        op = {'t': t, 'i': r.randint(-n - 1, n), 'sl': self.slice(n), 'v': [], 'form': 'list'}
        pick = lambda: r.randint(1, m - 1) if r.random() < .8 else m if r.random() < .6 else 0
        if t in ('set', 'append', 'insert'):
            op['v'] = [pick()]
        elif t == 'setsl':
            op['v'], op['form'] = [pick() for _ in range(r.randint(0, 3))], r.choice(['list', 'gen'])
        elif t in ('extend', 'add', 'iadd'):
            op['form'] = r.choice(['oflow', 'oflow', 'flow', 'list'] + ['node'] * 3 * (t != 'extend'))
            while True:
                v = [r.randint(1, m - 1) for _ in range(1 if op['form'] == 'node' else r.randint(1, 3))]
                if consistent(c['nodes'], v):
                    break
            op['v'] = v
        elif t == 'contains':
            op['i'] = r.randint(0, m)
        return op
