"""Random online nodes and histories (spec OnlineNode)."""


def cfg(r):
    k = r.choice(['probe', 'probe', 'mean', 'half', 'diff'])
    if k == 'probe':
        tr = r.random() < .93
        return {'kind': k, 'trainable': tr, 'inv': r.random() < .8, 'n': r.randint(1, 4) if tr else 1,
                'pd': r.random() < .4, 'supp': r.choice([['f4', 'f8'], ['f8'], ['f8', 'i8']]),
                'types': r.choice([['incremental', 'batch'], ['batch'], ['incremental'], ['batch', 'incremental']]),
                'legacy': r.random() < .3}
    return {'kind': k, 'trainable': True, 'inv': k != 'diff', 'n': 1, 'pd': True, 'supp': ['f4', 'f8'],
            'types': ['incremental', 'batch'] if k == 'diff' else ['incremental'], 'legacy': True}


class Gen(object):
    def __init__(self, r, c):
        self.r, self.c = r, c
        self.left = {'mean': 8, 'half': 6}.get(c['kind'], 40)
        self.w = r.randint(1, 3)

    def x(self, odd=.1, learn=True):
        r, ex = self.r, self.c['kind'] != 'probe'
        n = r.randint(1, 4)
        if learn:
            n = min(n, self.left)
        w, rank = self.w, 2
        if r.random() < odd:
            q = r.random()
            if q < .3:
                n = 0
            elif q < .7:
                w += 1
            elif n == 1:
                rank = 1
        step = 6720 if ex else 1
        return {'x': [[step * r.randint(-8, 8) for _ in range(w)] for _ in range(n)], 'cols': w, 'rank': rank,
                'dt': r.choice(['f8', 'f8', 'f8', 'f4']) if r.random() > odd else 'i8'}

    def op(self, k, d):
        r, c = self.r, self.c
        if d.node is None:
            return {'t': 'new', 'i': r.choice([0, 0, self.w]), 'o': r.choice([0, 0, 0, self.w]),
                    'dt': r.choice(['', '', 'f8', 'f4', 'i8']) if c['kind'] == 'probe' else r.choice(['', 'f8', 'f4']),
                    'rng': r.choice(['', '', 'a', 'b'])}
        t = r.choice(['train'] * 6 + ['execute'] * 4 + ['inverse', 'stop', 'set', 'settt', 'setrng', 'add'])
        fail = r.randint(1, 8) if c['kind'] == 'probe' and r.random() < .15 else 0
        if t == 'train' or t == 'execute' and d.node.get_current_train_iteration() == 0:
            if self.left < 1:
                t = 'execute'
        if t == 'train':
            x = self.x()
            self.left -= len(x['x'])
            return {'t': t, 'x': x, 'bad': r.choice(['', '', '', '', 'args', 'params']) if c['kind'] == 'probe' else '',
                    'a': r.choice([0, 3, 5]) if c['kind'] == 'probe' else 0, 'fail': fail}
        if t == 'execute':
            x = self.x(learn=d.node.get_current_train_iteration() == 0)
            if d.node.get_current_train_iteration() == 0:
                self.left -= len(x['x'])
            return {'t': t, 'x': x, 'bad': r.choice(['', '', '', 'params', 'args']) if c['kind'] == 'probe' else '', 'fail': fail}
        if t == 'inverse':
            return {'t': t, 'x': self.x(learn=False), 'fail': min(fail, 1)}
        if t == 'stop':
            return {'t': t, 'fail': min(fail, 2)} if r.random() < .4 else {'t': 'execute', 'x': self.x(0), 'bad': '', 'fail': 0} if d.node.get_current_train_iteration() else {'t': 'stop', 'fail': 0}
        if t == 'set':
            t = r.choice(['seti', 'seto', 'setdt'])
            return {'t': t, 'dt': r.choice(['f4', 'f8'])} if t == 'setdt' else {'t': t, 'n': self.w + (r.random() < .2)}
        if t == 'settt':
            return {'t': t, 'tt': r.choice(['incremental', 'batch', 'batch', 'other'])}
        if t == 'setrng':
            return {'t': t, 'rng': r.choice(['', 'a', 'b', 'bad'])}
        return {'t': 'add', 'o': r.choice(['online', 'node', 'flow', 'oflow', 'bad'])}
