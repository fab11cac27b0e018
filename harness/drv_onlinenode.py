"""Driver binding spec OnlineNode to mdp.OnlineNode: synthetic nodes whose user
hooks record what they are given, and the exact online nodes."""
import numpy as np
import mdp
import common

DT = {'f4': np.float32, 'f8': np.float64, 'i8': np.int64}
NAME = {'float32': 'f4', 'float64': 'f8', 'int64': 'i8'}


def array(x):
    a = np.array(x['x'], dtype=DT[x['dt']]).reshape(len(x['x']), x['cols'])
    return a[0] if x['rank'] == 1 else a


def near(v):
    """The integer a float is, up to rounding."""
    v = float(v)
    return int(round(v)) if abs(v) < 2 ** 30 and abs(v - round(v)) < .1 else 'nonint:%r' % v


def rows(x):
    return [[near(v) for v in r] for r in x]


class Probe(mdp.OnlineNode):
    drv, cfg, bad = None, None, ''

    @staticmethod
    def is_trainable():
        return Probe.cfg['trainable']

    @staticmethod
    def is_invertible():
        return Probe.cfg['inv']

    def _get_supported_dtypes(self):
        return list(Probe.cfg['supp'])

    def _get_supported_training_types(self):
        return list(Probe.cfg['types'])

    def _get_train_seq(self):
        c = Probe.cfg
        s = [(self._mk('train', p), self._mk('stop', p), self._mk('exec', p)) for p in range(c['n'])]
        return [e[:2] for e in s] if c['legacy'] else s

    def _mk(self, kind, p):
        def hook(x=None, a=0):
            self.drv.hook(kind, p, x, a)
            if kind == 'exec':
                return x + 1000 * (p + 1)
        return hook

    def _check_train_args(self, x, *args, **kwargs):
        if self.bad == 'args':
            raise mdp.TrainingException('bad arguments')

    def _check_params(self, x):
        if self.bad == 'params':
            raise ValueError('bad parameters')

    def _execute(self, x):
        self.drv.hook('execute', -1, x, 0)
        return x * 2

    def _inverse(self, y):
        self.drv.hook('inverse', -1, y, 0)
        return y * 3


class PDProbe(mdp.PreserveDimOnlineNode, Probe):
    is_trainable, is_invertible = staticmethod(Probe.is_trainable), staticmethod(Probe.is_invertible)
    for _n in ('_get_supported_dtypes', '_get_supported_training_types', '_get_train_seq', '_check_train_args',
               '_check_params', '_execute', '_inverse'):
        locals()[_n] = getattr(Probe, _n)


class N1(mdp.nodes.IdentityNode):
    pass


class N2(mdp.nodes.IdentityNode):
    pass


class O1(mdp.nodes.OnlineTimeDiffNode):
    pass


class Driver(object):
    count = 0

    def __init__(self, cfg):
        self.cfg, self.node, self.calls, self.fail = cfg, None, [], 0
        self.rngs = {'a': np.random.RandomState(1), 'b': np.random.RandomState(2), 'bad': np.random}
        Driver.count += 1
        self.k = Driver.count

    def __deepcopy__(self, memo):
        return self

    def hook(self, kind, p, x, a):
        self.calls.append({'k': kind, 'p': p, 'dt': '-' if x is None else NAME[x.dtype.name],
                           'x': [] if x is None else rows(x), 'a': a})
        if self.fail == len(self.calls):
            raise ValueError('injected')

    def make(self, op):
        c = self.cfg
        kw = dict(input_dim=op['i'] or None, output_dim=op['o'] or None,
                  dtype=DT[op['dt']] if op['dt'] else None, numx_rng=self.rngs[op['rng']] if op['rng'] else None)
        if c['kind'] == 'probe':
            nd = (PDProbe if c['pd'] else Probe)(**kw)
            nd.drv = self
        elif c['kind'] == 'diff':
            nd = mdp.nodes.OnlineTimeDiffNode(**kw)
        else:
            nd = mdp.nodes.OnlineCenteringNode(avg_n=3 if c['kind'] == 'half' else None, **kw)
        self.node = nd

    def add(self, op):
        n1, n2, o1 = N1(), N2(), O1()
        names = {id(self.node): 'self', id(n1): 'n1', id(n2): 'n2', id(o1): 'o1'}
        cls = {N1: 'n1', N2: 'n2', O1: 'o1'}
        other = {'online': o1, 'node': n1, 'bad': 3, 'flow': mdp.Flow([n1, n2]), 'oflow': mdp.OnlineFlow([o1, n2])}[op['o']]
        f = self.node + other
        if isinstance(other, mdp.Flow) and len(other) != 2:
            return ['operand changed']
        return [type(f).__name__] + [names.get(id(x)) or cls.get(type(x)) or
                                     ('self' if type(x) is type(self.node) else '?') for x in f]

    def do(self, op):
        Probe.cfg = self.cfg
        self.calls, self.fail, nd, t = [], op.get('fail', 0), self.node, op['t']
        if nd is not None:
            nd.bad = op.get('bad', '')
        self.k += 1
        x = array(op['x']) if 'x' in op else None
        keep = None if x is None else x.copy()
        args = (op['a'],) if op.get('a') else ()
        k, v = common.outcome({
            'new': lambda: self.make(op), 'train': lambda: nd.train(x, *args), 'stop': lambda: nd.stop_training(),
            'execute': lambda: (nd if self.k % 2 else nd.execute)(x), 'inverse': lambda: nd.inverse(x),
            'seti': lambda: setattr(nd, 'input_dim', op['n']), 'seto': lambda: setattr(nd, 'output_dim', op['n']),
            'setdt': lambda: setattr(nd, 'dtype', DT[op['dt']]), 'settt': lambda: nd.set_training_type(op['tt']),
            'setrng': lambda: setattr(nd, 'numx_rng', self.rngs[op['rng']] if op['rng'] else None),
            'add': lambda: self.add(op)}[t])
        out = {'e': type(v).__name__ if k == 'exc' else '', 'h': self.calls, 'y': []}
        if k != 'exc' and t in ('execute', 'inverse'):
            out['y'] = rows(v)
            if self.cfg['kind'] == 'probe' and nd.dtype is not None and v.dtype != nd.dtype:
                out['y'] = 'dtype'
        elif k != 'exc' and t == 'add':
            out['y'] = v
        if x is not None:
            if not (x.dtype == keep.dtype and np.array_equal(x, keep)):
                out['touched'] = True
            x[...] = 99999        # the caller's buffer is the caller's
        return out

    def obs(self):
        nd = self.node
        if nd is None:
            return {'made': False}
        names = dict((id(v), k) for k, v in self.rngs.items())
        return {'made': True, 'idim': nd.input_dim or 0, 'odim': nd.output_dim or 0,
                'dt': NAME[nd.dtype.name] if nd.dtype is not None else '',
                'phase': nd.get_current_train_phase(), 'training': nd.is_training(),
                'rem': nd.get_remaining_train_phase(), 'multi': nd.has_multiple_training_phases(),
                'iter': nd.get_current_train_iteration(), 'tt': nd.training_type or '',
                'rng': '' if nd.numx_rng is None else names.get(id(nd.numx_rng), 'own')}

    def proj(self, s):
        if not s['made']:
            return {'made': False}
        d = dict(s)
        for k in ('started', 'sum', 'prev', 'cur'):
            del d[k]
        d['rem'] = self.cfg['n'] - s['phase'] if self.cfg['trainable'] else 0
        d['multi'] = self.cfg['n'] > 1
        return d
