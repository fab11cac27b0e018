"""Driver binding spec OnlineFlow to mdp.OnlineFlow / mdp.CircularOnlineFlow."""
import re
import numpy as np
import mdp
import common

N, MOD = 99, 9973


class Sink(object):
    def reset(self, fail=0):
        self.calls, self.fail = [], fail

    def hook(self, num, kind, phase, x, a=()):
        self.calls.append({'i': num, 'k': kind, 'p': phase, 'x': [] if x is None else rows(x), 'a': list(a)})
        if self.fail == len(self.calls):
            raise ValueError('injected')


SINK = Sink()


def rows(x):
    return [common.exact_int(v[0]) for v in x]


def bodies(on):
    def _get_train_seq(self):
        if not on:
            return [(self._train, self._stop_training)] * self.nd['n']

        def t(p):
            return lambda x, *a: self._seen('train', p, x, a[:self.nd['args']])
        return [(t(p), lambda p=p: SINK.hook(self.num, 'stop', p, None), lambda x, *a: x) for p in range(self.nd['n'])]

    def _seen(self, kind, p, x, a=()):
        SINK.hook(self.num, kind, self.get_current_train_phase() if p is None else p, x, a)

    return {'is_trainable': lambda self: self.nd['k'] != 'nt', 'is_invertible': lambda self: self.nd['inv'],
            '_get_train_seq': _get_train_seq, '_seen': _seen,
            '_train': lambda self, x: self._seen('train', None, x),
            '_stop_training': lambda self: self._seen('stop', None, None),
            '_execute': lambda self, x: (self._seen('exec', -1, x), (7 * x + self.num) % MOD)[1],
            '_inverse': lambda self, y: (self._seen('inv', -1, y), (5 * y + 3 + self.num) % MOD)[1]}


def t1(self, x, label):
    self._seen('train', None, x, (label,))


def t2(self, x, label, weight, extra=None):
    self._seen('train', None, x, (label, weight))


CLS = {}
for _on, _base in ((True, mdp.OnlineNode), (False, mdp.Node)):
    for _n in range(3):
        b = bodies(_on)
        if _n:
            b['_train'] = (t1, t2)[_n - 1]
        CLS[_on, _n] = type('F%s%d' % ('On' if _on else '', _n), (_base,), b)


def make(num, nd):
    cls = CLS[nd['k'] == 'on', nd['args']]
    o = cls.__new__(cls)
    o.num, o.nd = num, nd
    i, q = nd['dims']
    o.__init__(input_dim=i or None, output_dim=q or None)
    if nd['k'] == 'on' and nd['batch']:
        o.set_training_type('batch')
    if nd['k'] == 'td':
        for p in range(nd['n']):
            o.train(np.zeros((1, i)), *[0] * nd['args'])
            o.stop_training()
    return o


def chunk(c):
    return np.array([[float(v)] * c['w'] for v in c['rows']]).reshape(len(c['rows']), c['w'])


def item(c, k):
    x = chunk(c)
    if c['form'] == 't':
        it = (x,) + tuple(None if a == [-1] else (tuple, list)[(k + len(a)) % 2](a) for a in c['a'])
        return list(it) if k % 2 else it
    return x


def sl(q):
    return slice(*[None if v == N else v for v in q])


class Driver(object):
    count = 0

    def __init__(self, cfg):
        SINK.reset()
        self.cfg = cfg
        self.nodes = [object()] + [make(i + 1, nd) for i, nd in enumerate(cfg['nodes'])]
        self.cls = mdp.CircularOnlineFlow if cfg['circ'] else mdp.OnlineFlow
        self.flow = self.cls([self.nodes[k] for k in cfg['init']])
        Driver.count += 1
        self.k = Driver.count

    def nums(self, flow):
        return [([k for k, o in enumerate(self.nodes) if o is n] or [-7])[0] for n in flow]

    def value(self, v, form):
        q = [self.nodes[k] for k in v]
        if form == 'gen':
            return (x for x in q)
        if form == 'node':
            return q[0]
        return {'flow': mdp.Flow, 'oflow': mdp.OnlineFlow, 'list': list}[form](q)

    def data(self, d, train):
        if d['k'] == 'none':
            return None
        if d['k'] == 'nonit':
            return 17
        cs = d['chunks']
        if d['k'] == 'array':
            if not train:
                return chunk(cs[0])
            a = np.array([chunk(c) for c in cs])
            return a[:, 0] if a.shape[1] == 1 and self.k % 2 else a
        items = [item(c, k) for k, c in enumerate(cs)]
        return iter(items) if d['k'] == 'iter' else items

    def derive(self, g):
        if type(g) is not self.cls or g is self.flow or g.flow is self.flow.flow:
            return ['not a new flow']
        return self.nums(g)

    def run(self, op):
        t, f, v = op['t'], self.flow, op.get('v')
        if t in ('train', 'execute', 'inverse'):
            d = self.data(op['data'], t == 'train')
            if t == 'train':
                return f.train(d)
            if t == 'inverse':
                return f.inverse(d)
            return f.execute(d, op['nr']) if op['nr'] != -1 else f(d) if self.k % 2 else f.execute(d)
        if t == 'stop':
            return self.nodes[op['i']].stop_training()
        if t == 'get':
            return self.nums([f[op['i']]])
        if t == 'getsl':
            return self.derive(f[sl(op['sl'])])
        if t == 'set':
            f[op['i']] = self.nodes[v[0]]
        elif t == 'setsl':
            f[sl(op['sl'])] = self.value(v, op['form'])
        elif t == 'del':
            del f[op['i']]
        elif t == 'delsl':
            del f[sl(op['sl'])]
        elif t == 'pop':
            return self.nums([f.pop() if op['i'] == -1 else f.pop(op['i'])])
        elif t == 'append':
            f.append(self.nodes[v[0]])
        elif t == 'insert':
            f.insert(op['i'], self.nodes[v[0]])
        elif t == 'extend':
            f.extend(self.value(v, op['form']))
        elif t == 'add':
            return self.derive(f + self.value(v, op['form']))
        elif t == 'iadd':
            g = f
            g += self.value(v, op['form'])
            if g is not f:
                raise AssertionError('another flow')
        elif t == 'contains':
            return [int(self.nodes[op['i']] in f)]
        elif t == 'input':
            f.set_input_node(op['i'])
        elif t == 'output':
            f.set_output_node(op['i'])
        elif t == 'reset':
            f.reset_output_node()
        elif t == 'store':
            f.set_stored_input(chunk(op['c']))
        elif t == 'ignore':
            f.ignore_input(op['b'])
        elif t == 'iterations':
            f.set_flow_iterations(op['i'])

    def do(self, op):
        SINK.reset(op.get('fail', 0))
        self.k += 1
        with common.quiet():
            k, v = common.outcome(self.run, op)
        out = {'e': '', 'par': '', 'at': -1, 'h': SINK.calls, 'y': []}
        if k == 'exc':
            out['e'] = type(v).__name__
            if op['t'] not in ('train', 'execute', 'inverse', 'stop'):
                out['e'] = 'error'
            if out['e'] == 'FlowExceptionCR':
                out['par'] = type(v.parent_exception).__name__
                m = re.search(r'Exception in node #(\d+)', str(v))
                out['at'] = int(m.group(1)) if m else -2
        elif op['t'] in ('execute', 'inverse'):
            out['y'] = rows(v)
        elif isinstance(v, list):
            out['y'] = v
        return out

    def obs(self):
        f = self.flow
        o = {'f': self.nums(f), 'n': len(f),
             'ns': [{'phase': n.get_current_train_phase(), 'training': n.is_training(), 'i': n.input_dim or 0,
                     'o': n.output_dim or 0, 'iter': n.get_current_train_iteration() if nd['k'] == 'on' else 0}
                    for n, nd in zip(self.nodes[1:], self.cfg['nodes'])]}
        if self.cfg['circ']:
            st = f.get_stored_input()
            o.update(out=f.output_node_idx, stored=[st is not None, [] if st is None else rows(st)],
                     ign=f._ignore_input, it=f._flow_iterations)
        return o

    def proj(self, s):
        o = {'f': s['f'], 'n': len(s['f']),
             'ns': [{k: n[k] for k in ('phase', 'training', 'i', 'o', 'iter')} for n in s['ns']]}
        if self.cfg['circ']:
            o.update(out=s['out'], stored=s['stored'], ign=s['ign'], it=s['it'])
        return o
