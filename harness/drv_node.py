"""Driver binding spec NodeLife to mdp.Node: synthetic nodes whose user hooks
record what they are given."""
import numpy as np
import mdp
import common

DT = {'f4': np.float32, 'f8': np.float64, 'i8': np.int64}
NAME = {'float32': 'f4', 'float64': 'f8', 'int64': 'i8'}


def array(x):
    shape = {1: (x['rows'],), 2: (x['rows'], x['cols']),
             3: (x['rows'], x['cols'], 2)}[x['rank']]
    n = int(np.prod(shape))
    return np.arange(n).reshape(shape).astype(DT[x['dt']])


_classes = {}


def node_class(cfg, base=None):
    key = (cfg['trainable'], cfg['inv'], cfg['n'], cfg['pd'], tuple(cfg['supp']), base)
    if key in _classes:
        return _classes[key]
    n, supp = cfg['n'], list(cfg['supp'])

    class Probe(base or (mdp.PreserveDimNode if cfg['pd'] else mdp.Node)):
        probe = None
        badargs = False

        @staticmethod
        def is_trainable():
            return cfg['trainable']

        @staticmethod
        def is_invertible():
            return cfg['inv']

        def _get_supported_dtypes(self):
            return supp

        def _get_train_seq(self):
            return [(self._mk('train', p), self._mk('stop', p)) for p in range(n)]

        def _mk(self, kind, p):
            def hook(x=None):
                return self.probe.hook(kind, p, x)
            return hook

        def _check_train_args(self, x, *args, **kwargs):
            if self.badargs:
                raise mdp.TrainingException('bad arguments')

        def _execute(self, x):
            self.probe.hook('execute', -1, x)
            return x * 2

        def _inverse(self, y):
            self.probe.hook('inverse', -1, y)
            return y * 3

    _classes[key] = Probe
    return Probe


class Driver(object):
    def __init__(self, cfg):
        self.cfg = cfg
        self.cls = node_class(cfg)
        self.node = None
        self.calls = []
        self.fail = 0

    def hook(self, kind, p, x):
        self.calls.append([kind, p, '-' if x is None else NAME[x.dtype.name]])
        if self.fail == len(self.calls):
            raise ValueError('injected')

    def do(self, op):
        self.calls = []
        self.fail = op.get('fail', 0)
        t = op['t']
        if t == 'new':
            def f():
                nd = self.cls(input_dim=op['i'] or None, output_dim=op['o'] or None,
                              dtype=DT[op['dt']] if op['dt'] else None)
                nd.probe = self
                self.node = nd
        elif t == 'train':
            self.node.badargs = op['bad']
            f = lambda: self.node.train(array(op['x']))
        elif t == 'stop':
            f = self.node.stop_training
        elif t == 'execute':
            self.node.badargs = False
            x = array(op['x'])

            def f():
                y = self.node.execute(x)
                want = x * 2
                if not (np.array_equal(y, want) and y.dtype == self.node.dtype):
                    raise AssertionError('execute did not return the value of the hook')
        elif t == 'inverse':
            x = array(op['x'])

            def f():
                y = self.node.inverse(x)
                if not np.array_equal(y, x * 3):
                    raise AssertionError('inverse did not return the value of the hook')
        elif t == 'seti':
            f = lambda: setattr(self.node, 'input_dim', op['n'])
        elif t == 'seto':
            f = lambda: setattr(self.node, 'output_dim', op['n'])
        elif t == 'setdt':
            f = lambda: setattr(self.node, 'dtype', DT[op['dt']])
        k, v = common.outcome(f)
        return {'e': type(v).__name__ if k == 'exc' else '', 'h': self.calls}

    def obs(self):
        nd = self.node
        if nd is None:
            return {'made': False, 'idim': 0, 'odim': 0, 'dt': '', 'phase': -1,
                    'started': False, 'training': False, 'rem': 0, 'multi': False}
        return {'made': True, 'idim': nd.input_dim or 0, 'odim': nd.output_dim or 0,
                'dt': NAME[nd.dtype.name] if nd.dtype is not None else '',
                'phase': nd.get_current_train_phase(),
                'training': nd.is_training(),
                'rem': nd.get_remaining_train_phase(),
                'multi': nd.has_multiple_training_phases()}

    def proj(self, s):
        d = dict(s)
        if not s['made']:
            d.update(rem=0, multi=False)
            return d
        del d['started']        # not observable; implied by later outcomes
        d['rem'] = self.cfg['n'] - s['phase'] if self.cfg['trainable'] else 0
        d['multi'] = self.cfg['n'] > 1
        return d
