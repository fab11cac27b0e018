"""C04: Flow as a container."""
import mdp
import common

N = 99


class LNode(mdp.Node):
    @staticmethod
    def is_trainable():
        return False


class SubFlow(mdp.Flow):
    pass


def sl(q):
    return slice(*[None if v == N else v for v in q])


class Driver(object):
    flowcls = mdp.Flow

    def __init__(self, cfg):
        self.objs = [object()]
        for i, o in cfg['dims']:
            self.objs.append(LNode(input_dim=i or None, output_dim=o or None))
        self.f = self.flowcls([self.objs[k] for k in cfg['init']])
        self.g = None

    def num(self, node):
        for k, o in enumerate(self.objs):
            if o is node:
                return k
        return -7

    def nums(self, flow):
        return [self.num(n) for n in flow]

    def value(self, v, form):
        items = [self.objs[k] for k in v]
        if form == 'gen':
            return (x for x in items)
        if form == 'flow':
            return self.flowcls(items)
        if form == 'node':
            return items[0]
        return items

    def derive(self, g):
        # a derived flow is a new flow of the same class with its own node list
        if type(g) is not self.flowcls or g is self.f or g.flow is self.f.flow:
            return ['not a new %s' % self.flowcls.__name__]
        self.g = g
        return self.nums(g)

    def do(self, op):
        t, f = op['t'], self.f
        v = op.get('v')

        def run():
            if t == 'get':
                return [self.num(f[op['i']])]
            if t == 'getsl':
                return self.derive(f[sl(op['sl'])])
            if t == 'set':
                f[op['i']] = self.objs[v[0]]
            elif t == 'setsl':
                f[sl(op['sl'])] = self.value(v, op['form'])
            elif t == 'del':
                del f[op['i']]
            elif t == 'delsl':
                del f[sl(op['sl'])]
            elif t == 'append':
                f.append(self.objs[v[0]])
            elif t == 'insert':
                f.insert(op['i'], self.objs[v[0]])
            elif t == 'pop':
                return [self.num(f.pop() if op['i'] == -1 else f.pop(op['i']))]
            elif t == 'add':
                return self.derive(f + self.value(v, op['form']))
            elif t == 'addself':
                return self.derive(f + f)
            elif t == 'iadd':
                h = f
                h += self.value(v, op['form'])
                if h is not f:
                    return ['another flow']
            elif t == 'extend':
                f.extend(self.value(v, op['form']))
            elif t == 'contains':
                return [1 if self.objs[op['i']] in f else 0]
            elif t == 'new':
                return self.derive(self.flowcls([self.objs[k] for k in v]))
            elif t == 'gadd':
                if self.g is not None:
                    g = self.g
                    g += self.flowcls([self.objs[k] for k in v])
            return []
        k, r = common.outcome(run)
        return {'e': type(r).__name__ if k == 'exc' else '', 'v': [] if k == 'exc' else r}

    def obs(self):
        f = self.nums(self.f)
        if len(self.f) != len(f) or [self.num(self.f[i]) for i in range(len(f))] != f:
            return {'f': 'iteration, len and indexing disagree'}
        return {'f': f, 'g': [-1] if self.g is None else self.nums(self.g)}


class DriverF(Driver):
    def obs(self):
        return {'f': Driver.obs(self)['f']}


class DriverSub(DriverF):
    flowcls = SubFlow


def gen_op(r, c, n):
    ids = list(range(1, len(c['dims']) + 1))
    ids0 = ids + ids + ids + [0]
    t = r.choice(['get', 'getsl', 'set', 'setsl', 'setsl', 'del', 'delsl', 'append', 'append',
                  'insert', 'insert', 'pop', 'add', 'addself', 'iadd', 'iadd', 'extend',
                  'contains', 'new', 'gadd'])
    op = {'t': t, 'i': r.randint(-n - 2, n + 2)}
    bound = lambda: r.choice([N, N] + list(range(-n - 2, n + 3)))
    if t in ('getsl', 'setsl', 'delsl'):
        op['sl'] = [bound(), bound(), r.choice([N, N, N, 1, 2, 3, -1, -2, -3])]
    if t == 'contains':
        op['i'] = r.choice([0] + ids)
    if t in ('set', 'append', 'insert'):
        op['v'] = [r.choice(ids0)]
    if t in ('setsl', 'add', 'iadd', 'extend', 'new', 'gadd'):
        op['v'] = [r.choice(ids) for _ in range(r.randint(0, 3))]
        op['form'] = 'flow'
    if t == 'setsl':
        op['form'] = r.choice(['list', 'gen', 'flow'])
        if op['form'] != 'flow':
            op['v'] = [r.choice(ids0) for _ in range(r.randint(0, 3))]
    if t in ('add', 'iadd') and r.random() < .5:
        op['form'] = 'node'
        op['v'] = [r.choice(ids0)]
    if t == 'extend' and r.random() < .1:
        op['form'] = 'list'
    return op


def consistent(c, v):
    d = [c['dims'][k - 1] for k in v]
    return all(not a[1] or not b[0] or a[1] == b[0] for a, b in zip(d, d[1:]))


def run(chk):
    res = chk.explore('MC_FlowList', env={'TIER': common.TIER})
    chk.replay(res.emitted['T'], DriverF, label='flow container')
    chk.replay(res.emitted['T'], DriverSub, label='flow subclass container')
    r = common.rng('list')
    traces = []
    for _ in range(common.quick(300, 4000)):
        c = {'dims': [[r.choice([0, 2, 2, 3]), r.choice([0, 2, 2, 3])] for _ in range(5)],
             'init': []}

        def ops(d, k):
            if k >= 25:
                return None
            while True:
                n = len(d.f)
                op = gen_op(r, c, n)
                # the argument flow itself must be constructible
                if op.get('form') == 'flow' and op['t'] != 'new' and not consistent(c, op['v']):
                    continue
                if n > 8 and op['t'] in ('append', 'insert', 'iadd', 'extend', 'setsl'):
                    op = {'t': 'delsl', 'i': 0, 'sl': [r.randint(0, 4), N, N]}
                return op
        traces.append(chk.record(Driver, c, ops))
    chk.compare('TR_FlowList', traces, label='flow container')
