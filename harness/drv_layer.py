"""Driver binding spec Layer to mdp.hinet.Layer, CloneLayer, SameInputLayer."""
import numpy as np
import mdp
from mdp import hinet
import common

DT = {'f4': 'f', 'f8': 'd', 'i4': 'i'}
NAME = {'float32': 'f4', 'float64': 'f8', 'int32': 'i4'}


def mat(d):
    return np.array(d['x'], dtype=DT[d['dt']]).reshape(len(d['x']), d['w'])


def rows(x):
    return [[common.exact_int(v) for v in r] for r in np.asarray(x, dtype=float)]


class LNode(mdp.Node):
    def __init__(self, num, nd):
        self.num, self.nd, self.ev, self.rec = num, nd, [], False
        mdp.Node.__init__(self, nd['in'] or None, nd['out'] or None, nd['dt'] and DT[nd['dt']] or None)

    def _get_supported_dtypes(self):
        return [DT[t] for t in self.nd['sup']]

    def is_trainable(self):
        return self.nd['n'] > 0

    def is_invertible(self):
        return self.nd['inv']

    def _get_train_seq(self):
        return [(self._train, self._stop_training)] * self.nd['n']

    def note(self, k, x, a):
        if self.rec:
            self.ev.append({'k': k, 'p': self.get_current_train_phase(), 'x': x, 'a': a})

    def _train(self, x, a=0):
        self.note('train', rows(x), a)

    def _stop_training(self, a=0):
        self.note('stop', [], a)
        if self.output_dim is None and self.nd['so'] and self.get_remaining_train_phase() == 1:
            self.output_dim = self.nd['so']

    def f(self, x, n, a, base):
        w = np.arange(1, x.shape[1] + 1)
        v = (np.dot(x, w)[:, None] + base * self.num + 3 * np.arange(1, n + 1)[None, :] + 50 * a) % 9973
        return v.astype('i') if self.nd['oi'] else v + 0.5

    def _execute(self, x, a=0):
        return self.f(x, self.output_dim, a, 10)

    def _inverse(self, y, a=0):
        return self.f(y, self.input_dim, a, 77)


class Driver(object):
    count = 0
    LNODE = LNode

    def __init__(self, cfg):
        self.cfg = cfg
        self.layer = None
        self.nodes = []
        for i, nd in enumerate(cfg['nodes']):
            n = self.LNODE(i + 1, nd)
            while nd['done'] and n.is_training():
                # leaves the unset attributes alone
                n._train_phase_started = True
                n.stop_training()
            n.rec = True
            self.nodes.append(n)
        Driver.count += 1
        self.k = Driver.count

    def classes(self):
        return hinet.Layer, hinet.CloneLayer, hinet.SameInputLayer

    def make(self):
        c = self.cfg
        L, C, S = self.classes()
        kw = {'dtype': DT[c['dt']]} if c['dt'] else {}
        if c['kind'] == 'clone':
            return C(self.nodes[0], c['m'], **kw)
        nodes = tuple(self.nodes) if self.k % 2 else list(self.nodes)
        return (L if c['kind'] == 'layer' else S)(nodes, **kw)

    def do(self, op):
        for n in self.nodes:
            n.ev = []
        t = op['t']
        self.k += 1
        args, kw = (), {}
        if op.get('a'):
            if self.k % 2:
                args = (op['a'],)
            else:
                kw = {'a': op['a']}
        out = {'e': False, 'y': []}
        lay = self.layer
        x = mat(op['d']) if 'd' in op else None
        if x is not None and self.k % 3 == 0:
            x = np.asfortranarray(x)
        x0 = None if x is None else x.copy()
        if t == 'new':
            fn = self.make
        elif t == 'train':
            fn = lambda: lay.train(x, *args, **kw)
        elif t == 'stop':
            fn = lambda: lay.stop_training(*args, **kw)
        elif t == 'execute':
            fn = lambda: (lay if self.k % 5 == 0 else lay.execute)(x, *args, **kw)
        elif t == 'inverse':
            fn = lambda: lay.inverse(x, *args, **kw)
        else:
            fn = lambda: self.setdt(op['dt'])
        k, v = common.outcome(fn)
        out['log'] = [n.ev for n in self.nodes]
        if k == 'exc':
            out['e'] = True
        elif t == 'new':
            self.layer = v
        elif t in ('execute', 'inverse'):
            out['y'] = rows(2 * np.asarray(v, dtype=float))
        elif v is not None:
            out['y'] = [['unexpected value']]
        if x is not None and not (x == x0).all():
            out['y'] = [['the input was changed']]
        return out

    def setdt(self, t):
        self.layer.dtype = DT[t] if t else None

    def obs(self):
        lay = self.layer
        if lay is None:
            return {'made': False}
        n = len(self.nodes)
        m = self.cfg['m'] if self.cfg['kind'] == 'clone' else n
        want = self.nodes * m if self.cfg['kind'] == 'clone' else self.nodes
        return {'made': True, 'idim': lay.input_dim, 'od': lay.output_dim or 0,
                'dt': [NAME[q.dtype.name] if q.dtype is not None else '' for q in [lay] + self.nodes],
                'training': lay.is_training(), 'trainable': lay.is_trainable(),
                'phase': lay.get_current_train_phase() if lay.is_trainable() else 0,
                'left': lay.get_remaining_train_phase() if lay.is_trainable() else 0,
                'inv': lay.is_invertible(),
                'ns': [[q.output_dim or 0, q.get_current_train_phase() if q.is_trainable() else 0,
                        q.is_training()] for q in self.nodes],
                'items': (len(lay), [q is w for q, w in zip(lay, want)], [lay[i] is w for i, w in enumerate(want)],
                          all(q in lay for q in self.nodes), mdp.Node() in lay)}

    def proj(self, s):
        c = self.cfg
        if not s['made']:
            return {'made': False}
        nodes = c['nodes']
        k = c['m'] if c['kind'] == 'clone' else len(nodes)
        ins = [n['in'] for n in nodes]
        tr = any(n['n'] and not n['done'] for n in nodes)
        nph = max(n['n'] for n in nodes)
        return {'made': True, 'idim': ins[0] if c['kind'] == 'same' else ins[0] * k if c['kind'] == 'clone' else sum(ins),
                'od': s['od'], 'dt': [s['dt']] * (1 + len(nodes)), 'trainable': tr,
                'training': tr and s['phase'] < nph, 'phase': s['phase'], 'left': nph - s['phase'] if tr else 0,
                'inv': c['kind'] != 'same' and all(n['inv'] for n in nodes),
                'ns': [[q['od'], q['phase'], q['phase'] < n['n']] for q, n in zip(s['ns'], nodes)],
                'items': (k, [True] * k, [True] * k, True, False)}
