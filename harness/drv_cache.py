"""Driver binding spec Cache to mdp.caching."""
import os
import shutil
import tempfile
import numpy as np
import mdp
from mdp.caching import caching_extension as ce
import common
from drv_layer import DT, NAME

RUNS = [0]


class Mixin(object):
    def __init__(self, c):
        super(Mixin, self).__init__(c['w'] or None)
        self.p, self.seen = c['p'], 0

    def is_invertible(self):
        return False

    def _train(self, x):
        self.seen += int(x[:, 0].sum())

    def _stop_training(self):
        pass

    def _execute(self, x, a=0):
        RUNS[0] += 1
        if a == 99:
            raise ValueError('not this one')
        return self.p * x + self.seen + a


class Plain(Mixin, mdp.Node):
    def is_trainable(self):
        return False


class APlain(Plain):
    pass


class BPlain(Plain):
    pass


class ATrain(Mixin, mdp.Node):
    pass


class BTrain(Mixin, mdp.Node):
    pass


class AOnline(Mixin, mdp.OnlineNode):
    def _check_input(self, x):
        # no source of randomness in the state
        self._numx_rng = None
        mdp.Node._check_input(self, x)
        if self.training_type is None:
            self.set_training_type('batch')


class BOnline(AOnline):
    pass


KINDS = {'plain': 'Plain', 'train': 'Train', 'online': 'Online'}


class Driver(object):
    count = 0

    def __init__(self, cfg):
        ce.deactivate_caching()
        self.cfg = cfg
        self.root = tempfile.mkdtemp(prefix='vcache')
        self.old = os.environ.get('TMPDIR'), tempfile.tempdir
        tempfile.tempdir = self.root      # where temporary cache directories go
        self.nodes = [globals()[c['cls'] + KINDS[c['kind']]](c) for c in cfg['nodes']]
        self.open = []
        Driver.count += 1
        self.k = Driver.count

    def dir(self, d):
        return None if not d else os.path.join(self.root, d)

    def close(self):
        ce.deactivate_caching()
        ce._cacheobj = ce._cachedir = ce._memory = None
        tempfile.tempdir = self.old[1]
        shutil.rmtree(self.root, ignore_errors=True)

    def args(self, op):
        cs = [q for q in (globals()[a + b] for a in op['cs'] for b in KINDS.values())]
        return {'cachedir': self.dir(op['dir']), 'cache_classes': None if op['all'] or not cs and (op['is'] or self.k % 2) else cs,
                'cache_instances': None if op['all'] else [self.nodes[i - 1] for i in op['is']]}

    def do(self, op):
        self.k += 1
        before = RUNS[0]
        k, v = common.outcome(self.do1, op)
        out = {'e': 'exc' if k == 'exc' else '', 'y': 0, 'ran': RUNS[0] - before}
        if k != 'exc' and op['t'] == 'execute':
            x = op['x']
            if v.shape != (1, x['w']) or len(set(v[0])) != 1:
                out['shape'] = list(v.shape)
            out['y'] = common.exact_int(v[0, 0])
            v[:] = -1        # the result is the caller's own
        return out

    def do1(self, op):
        t = op['t']
        if t in ('activate', 'enter'):
            kw = self.args(op)
            if t == 'activate':
                return mdp.caching.activate_caching(**kw)
            c = mdp.caching.cache(**kw)
            c.__enter__()
            return self.open.append(c)
        if t == 'generic':
            return mdp.activate_extension('cache_execute')
        if t == 'deactivate':
            return mdp.caching.deactivate_caching()
        if t == 'leave':
            return self.open.pop().__exit__(None, None, None)
        if t == 'setdir':
            return mdp.caching.set_cachedir(self.dir(op['dir']))
        n = self.nodes[op['i'] - 1]
        if t == 'setinst':
            return n.set_instance_cache(op['on'])
        if t == 'setp':
            n.p = op['v']
            return
        if t == 'stop':
            return n.stop_training()
        x = np.full((1, op['x']['w']), op['x']['v'], dtype=DT[op['x']['dt']])
        try:
            if t == 'train':
                return n.train(x)
            f = n if self.k % 2 else n.execute
            return f(x, op['a']) if op['a'] else f(x)
        finally:
            if not (x == op['x']['v']).all():
                raise common.Machinery('input changed')
            x[:] = -5

    def obs(self):
        o = {'act': 'cache_execute' in mdp.get_active_extensions(), 'ns': []}
        for n, c in zip(self.nodes, self.cfg['nodes']):
            o['ns'].append({'w': n.input_dim or 0, 'dt': NAME[n.dtype.name] if n.dtype is not None else '',
                            'training': n.is_training() if c['kind'] != 'plain' else False, 'seen': n.seen, 'p': n.p,
                            'cached': n.is_cached() if o['act'] else False})
        return o

    def proj(self, s):
        return {'act': s['act'], 'ns': [
            {'w': n['w'], 'dt': n['dt'], 'training': n['ph'] == 0, 'seen': n['seen'], 'p': n['p'],
             'cached': s['act'] and (s['glob'] or self.cfg['nodes'][i]['cls'] in s['cls'] or i + 1 in s['inst'])}
            for i, n in enumerate(s['ns'])]}
