"""Driver binding spec FlowRun to mdp.Flow / mdp.CheckpointFlow."""
import glob
import os
import pickle
import re
import shutil
import tempfile
import warnings

import numpy as np
import mdp
import common


class Sink(object):
    """Receives the hook calls of all probe nodes (kept out of the nodes so
    that they can be copied and pickled)."""
    def __init__(self):
        self.reset()

    def reset(self, fail=0):
        self.calls = []
        self.fail = fail

    def hook(self, num, kind, phase, x):
        self.calls.append([num, kind, phase, rows(x) if x is not None else []])
        if self.fail == len(self.calls):
            raise ValueError('injected')


SINK = Sink()


def rows(x):
    return [common.exact_int(v[0]) for v in x]


class FNode(mdp.Node):
    """Probe node number `num`; see spec FlowRun."""
    def __init__(self, num, nd):
        self.num = num
        self.nd = nd
        super(FNode, self).__init__()
        if nd['pre']:
            for p in range(nd['n']):
                self.train(np.array([[0.]]), *[0] * nd['args'])
                self.stop_training()

    def is_trainable(self):
        return self.nd['tr']

    def is_invertible(self):
        return self.nd['inv']

    def _get_train_seq(self):
        return [(self._train, self._stop_training)] * self.nd['n']

    def _train(self, x):
        SINK.hook(self.num, 'train', self.get_current_train_phase(), x)

    def _stop_training(self):
        SINK.hook(self.num, 'stop', self.get_current_train_phase(), None)

    def _execute(self, x):
        SINK.hook(self.num, 'exec', -1, x)
        return 10 * x + self.num

    def _inverse(self, y):
        SINK.hook(self.num, 'inv', -1, y)
        return 10 * y + 4 + self.num


class FNode1(FNode):
    def _train(self, x, label):
        SINK.hook(self.num, 'train', self.get_current_train_phase(), x)


class FNode2(FNode):
    def _train(self, x, label, weight, extra=None):
        SINK.hook(self.num, 'train', self.get_current_train_phase(), x)


CLS = {0: FNode, 1: FNode1, 2: FNode2}


def node_state(nd):
    return {'phase': nd.get_current_train_phase(), 'training': nd.is_training()}


def chunk(c):
    x = np.array([[float(v)] for v in c['rows']])
    return x[:, 0] if c['bad'] else x


def train_item(c, i=0):
    x = chunk(c)
    if c['args']:
        it = (x,) + (7,) * c['args']
        return list(it) if i % 2 else it
    return x


def iterable(it):
    k = it['k']
    if k == 'none':
        return None
    if k == 'nonit':
        return 17
    items = [train_item(c, i) for i, c in enumerate(it['chunks'])]
    return iter(items) if k == 'iter' else items


class Driver(object):
    def __init__(self, cfg):
        SINK.reset()
        self.cfg = cfg
        self.nodes = [CLS[nd['args']](i + 1, nd) for i, nd in enumerate(cfg['nodes'])]
        self.tmp = None
        cls = mdp.CheckpointFlow if cfg['cp'] else mdp.Flow
        rec = False
        if cfg['cr'] != 'no':
            self.tmp = tempfile.mkdtemp(prefix='vcrash')
            self.name = os.path.join(self.tmp, 'named.pic')
            rec = True if cfg['cr'] == 'auto' else self.name
        self.flow = cls(self.nodes, crash_recovery=rec)
        self.plain = set(self.flow.__dict__)

    def close(self):
        if self.tmp:
            shutil.rmtree(self.tmp)

    def _cp(self, i, f):
        if f == 'none':
            return None

        def func(node):
            if node is not self.nodes[i]:
                raise AssertionError('checkpoint called with a foreign node')
            SINK.hook(i + 1, 'cp', node.get_current_train_phase(), None)
            if f == 'dict':
                return {'cp%d' % (i + 1): i + 1}
            if f == 'stop':
                node.stop_training()
        return func

    def _one_cp(self, f):
        if f == 'none':
            return None

        def func(node):
            i = [k for k, n in enumerate(self.nodes) if n is node][0]
            return self._cp(i, f)(node)
        return func

    def _dumped(self, exc):
        """What crash recovery saved: node states of the dumped flow."""
        if self.cfg['cr'] == 'no':
            if hasattr(exc, 'filename'):
                return 'unexpected dump'
            return 'none'
        if self.cfg['cr'] == 'name' and exc.filename != self.name:
            return 'wrong file name'
        if exc.filename not in str(exc):
            return 'file not mentioned'
        with open(exc.filename, 'rb') as f:
            fl = pickle.load(f)
        os.remove(exc.filename)
        if type(fl) is not type(self.flow) or fl is self.flow:
            return 'not a flow'
        return [node_state(n) for n in fl.flow]

    def do(self, op):
        SINK.reset(op['fail'])
        t = op['t']
        if t == 'train':
            d = op['data']
            if d['k'] == 'array':
                data = chunk(d['chunks'][0])
            elif d['k'] == 'notlist':
                data = 'abc'
            else:
                data = [iterable(i) for i in d['its']]
            args = [data]
            if self.cfg['cp']:
                c = op['cps']
                if c['k'] == 'one':
                    args.append(self._one_cp(c['f']))
                else:
                    args.append([self._cp(i, f) for i, f in enumerate(c['fs'])])
            fn = lambda: self.flow.train(*args)
        else:
            d = op['data']
            items = [chunk(c) for c in d['chunks']]
            data = items[0] if d['k'] == 'array' else iter(items) if d['k'] == 'iter' else items
            if t == 'execute':
                if op['nr'] == -1:
                    if len(items) % 2:
                        fn = lambda: self.flow(data)
                    else:
                        fn = lambda: self.flow.execute(data)
                else:
                    fn = lambda: self.flow.execute(data, nodenr=op['nr'])
            else:
                fn = lambda: self.flow.inverse(data)
        olddir = tempfile.tempdir
        if self.tmp:
            tempfile.tempdir = self.tmp
        try:
            with warnings.catch_warnings(record=True) as ws:
                warnings.simplefilter('always')
                k, v = common.outcome(fn)
        finally:
            tempfile.tempdir = olddir
        out = {'e': '', 'par': '', 'at': 0, 'dump': [], 'h': SINK.calls, 'y': [],
               'warn': len([w for w in ws if issubclass(w.category, mdp.MDPWarning)])}
        if k == 'exc':
            out['e'] = type(v).__name__
            if out['e'] == 'FlowExceptionCR':
                out['par'] = type(v.parent_exception).__name__
                m = re.search(r'Exception in node #(\d+)', str(v))
                out['at'] = int(m.group(1)) + 1 if m else -1
                if v.crashing_obj is not self.flow:
                    out['at'] = 'foreign crashing_obj'
                dump = self._dumped(v)
                if dump == 'none':
                    # nothing may be saved without crash recovery; the states
                    # are compared with those of the live flow
                    dump = [node_state(n) for n in self.flow.flow]
                out['dump'] = dump
            elif out['e'] == 'FlowException':
                m = re.search(r'Exception in node #(\d+)', str(v))
                if m:
                    out['at'] = int(m.group(1)) + 1
                    out['par'] = 'upstream'
        elif t != 'train':
            out['y'] = rows(v)
        if self.tmp:
            # at most the dump of this crash is left (upstream failures)
            left = glob.glob(os.path.join(self.tmp, '*'))
            out['left'] = len(left)
            for f in left:
                os.remove(f)
        return self.fix(out)

    def fix(self, out):
        return out

    def obs(self):
        return {'ns': [node_state(n) for n in self.nodes],
                'same': [a is b for a, b in zip(self.flow.flow, self.nodes)] ==
                        [True] * len(self.nodes) and len(self.flow) == len(self.nodes),
                'attrs': sorted([v for k, v in self.flow.__dict__.items()
                                 if k not in self.plain])}

    def proj(self, s):
        return {'ns': [{'phase': n['phase'], 'training': n['training']} for n in s['ns']],
                'same': True, 'attrs': sorted(s['attrs'])}


def expected(out, cfg):
    """Outcome of the specification in the form the driver reports it."""
    o = dict(out)
    o['dump'] = [{'phase': n['phase'], 'training': n['training']} for n in o['dump']]
    if o['e'] == 'FlowException' and o['at']:
        o['par'] = 'upstream'
        o['dump'] = []
        if cfg['cr'] != 'no':
            o['left'] = 1
    elif cfg['cr'] != 'no':
        o['left'] = 0
    return o
