"""Driver binding spec FlowNode to mdp.hinet.FlowNode."""
import numpy as np
import mdp
from mdp import hinet
import common
from drv_layer import DT, NAME, mat, rows


class FNode(mdp.Node):
    def __init__(self, num, nd):
        self.num, self.nd, self.ev, self.rec = num, nd, [], False
        mdp.Node.__init__(self, nd['in'] or None, None if nd['g'] else nd['out'] or None,
                          nd['dt'] and DT[nd['dt']] or None)

    def _get_supported_dtypes(self):
        return [DT[t] for t in self.nd['sup']]

    def is_trainable(self):
        return self.nd['n'] > 0

    def is_invertible(self):
        return self.nd['inv']

    def _get_train_seq(self):
        return [(self._train, self._stop_training)] * self.nd['n']

    def note(self, k, x, a):
        if self.rec:
            self.ev.append({'k': k, 'p': self.get_current_train_phase(), 'x': x, 'a': a})

    def _train(self, x, a=0):
        self.note('train', rows(x), a)

    def _stop_training(self, a=0):
        self.note('stop', [], a)
        if self.output_dim is None and self.nd['so'] and self.get_remaining_train_phase() == 1:
            self.output_dim = self.nd['so']

    def f(self, x, n, base):
        w = np.arange(1, x.shape[1] + 1)
        return (np.dot(x, w)[:, None] + base * self.num + 3 * np.arange(1, n + 1)[None, :]) % 9973

    def _execute(self, x):
        return self.f(x, self.output_dim, 10)

    def _inverse(self, y):
        return self.f(y, self.input_dim, 77)


class PdNode(FNode, mdp.PreserveDimNode):
    pass


class ExNode(FNode):
    def _set_input_dim(self, n):
        self._input_dim = n
        self._output_dim = 2 * n

    def _set_output_dim(self, n):
        raise mdp.NodeException('cannot be set')


class NoCopy(object):
    def __deepcopy__(self, memo):
        raise ValueError('not this one')


class Driver(object):
    count = 0
    KIND = {'': FNode, 'pd': PdNode, 'ex': ExNode}
    FLOW = mdp.Flow

    def __init__(self, cfg):
        self.cfg, self.fn, self.nodes, self.old = cfg, None, [], []
        for i, nd in enumerate(cfg['nodes']):
            n = self.KIND[nd['g']](i + 1, nd)
            for _ in range(nd['pre']):
                n._train_phase_started = True
                n.stop_training()
            n.rec = True
            self.nodes.append(n)
        Driver.count += 1
        self.k = Driver.count

    def make(self):
        c = self.cfg
        return hinet.FlowNode(self.FLOW(self.nodes), c['in'] or None, c['out'] or None,
                              DT[c['dt']] if c['dt'] else None)

    def copy(self):
        fn = self.fn.copy()
        if any(a is b for a in self.nodes for b in fn):
            raise AssertionError('shared node')
        return fn

    def badcopy(self):
        self.fn.thing = NoCopy()
        try:
            self.fn.copy()
        finally:
            del self.fn.thing

    def do(self, op):
        for n in self.nodes:
            n.ev = []
        t, fn = op['t'], self.fn
        self.k += 1
        args, kw = (), {}
        if op.get('a'):
            if self.k % 2:
                args = (op['a'],)
            else:
                kw = {'a': op['a']}
        out = {'e': False, 'y': []}
        x = mat(op['d']) if 'd' in op else None
        f = {'new': self.make, 'train': lambda: fn.train(x, *args, **kw),
             'stop': lambda: fn.stop_training(*args, **kw), 'execute': lambda: (fn if self.k % 3 else fn.execute)(x),
             'inverse': lambda: fn.inverse(x), 'setin': lambda: fn.set_input_dim(op['n']),
             'setout': lambda: setattr(fn, 'output_dim', op['n']), 'setdt': lambda: fn.set_dtype(DT[op['dt']]),
             'copy': self.copy, 'badcopy': self.badcopy}[t]
        k, v = common.outcome(f)
        out['log'] = [n.ev for n in self.nodes]
        if k == 'exc':
            out['e'] = True
        elif t in ('new', 'copy'):
            if t == 'copy':
                self.old = [(self.fn, self.nodes, self.obs1(self.fn, self.nodes))]
                self.nodes = list(v)
            self.fn = v
        elif t in ('execute', 'inverse'):
            out['y'] = rows(v)
        elif v is not None:
            out['y'] = [['unexpected value']]
        return out

    @staticmethod
    def obs1(fn, nodes):
        n = len(nodes)
        return {'made': True, 'in': fn.input_dim or 0, 'od': fn.output_dim or 0,
                'dt': NAME[fn.dtype.name] if fn.dtype is not None else '', 'trainable': fn.is_trainable(),
                'training': fn.is_training(), 'phase': fn.get_current_train_phase() if fn.is_trainable() else 0,
                'left': fn.get_remaining_train_phase() if fn.is_trainable() else 0, 'inv': fn.is_invertible(),
                'ns': [{'in': q.input_dim or 0, 'od': q.output_dim or 0,
                        'dt': NAME[q.dtype.name] if q.dtype is not None else '',
                        'phase': q.get_current_train_phase() if q.is_trainable() else 0} for q in nodes],
                'items': [len(fn) == n == len(fn.flow), all(a is b for a, b in zip(fn, nodes)),
                          all(fn[i] is a for i, a in enumerate(nodes)), all(a in fn for a in nodes),
                          mdp.Node() not in fn]}

    def obs(self):
        if self.fn is None:
            return {'made': False}
        o = self.obs1(self.fn, self.nodes)
        o['old'] = all(common.eq(self.obs1(a, b), c) for a, b, c in self.old)
        return o

    def proj(self, s):
        if not s['made']:
            return {'made': False}
        nd = self.cfg['nodes']
        n = sum(q['n'] - q['pre'] for q in nd)
        return {'made': True, 'in': s['in'], 'od': s['od'], 'dt': s['dt'], 'trainable': n > 0,
                'training': s['phase'] < n, 'phase': s['phase'], 'left': n - s['phase'],
                'inv': all(q['inv'] for q in nd), 'ns': s['ns'], 'items': [True] * 5, 'old': True}
