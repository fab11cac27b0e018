"""Driver binding spec BiFlow to bimdp.BiFlow and bimdp.BiCheckpointFlow."""
import numpy as np
import mdp
import bimdp
import common

TGT = {'1': 1, '-1': -1, '2': 2, '-2': -2, '3': 3, '-3': -3, '0': 0, 'exit': bimdp.EXIT_TARGET}


def tgt(t):
    return TGT.get(t, t)


def rows(x):
    return [] if x is None else [common.exact_int(v[0]) for v in x]


def data(r):
    return np.array([[float(v)] for v in r]) if r else None


def to_msg(m, empty=None):
    out = {}
    if m['a']:
        out['a'] = m['a']
    if m['r']:
        out['r'] = np.array([m['r']])
    if m.get('pa'):
        out['p->a'] = m['pa']
    return out or empty


class Log(object):
    """The common log of all nodes; not copied with the nodes."""

    def __init__(self):
        self.ev = []

    def __call__(self, n, k, x=None, a=0, r=None):
        self.ev.append({'n': n, 'k': k, 'x': rows(x), 'a': a, 'r': 0 if r is None else int(r[0])})


class Common(object):
    def setup(self, num, nd, log):
        self.num, self.nd, self.log = num, nd, log

    def is_trainable(self):
        return self.nd['n'] > 0

    def is_invertible(self):
        return False

    def _get_train_seq(self):
        return [(self._train, self._stop_training)] * self.nd['n']

    def map(self, x):
        return None if x is None else (x * 11 + self.num) % 99991


class Plain(Common, mdp.Node):
    def __init__(self, num, nd, log):
        self.setup(num, nd, log)
        mdp.Node.__init__(self)

    def _train(self, x):
        self.log(self.num, 'train', x)

    def _stop_training(self):
        self.log(self.num, 'stop')

    def _execute(self, x):
        self.log(self.num, 'exec', x)
        return self.map(x)


class Bi(Common, bimdp.BiNode):
    def __init__(self, num, nd, log):
        self.setup(num, nd, log)
        self.ex = self.tr = 0
        bimdp.BiNode.__init__(self, node_id=nd['id'] or None)

    def _bi_reset(self):
        self.ex = self.tr = 0

    def result(self, r, x):
        f = r['f']
        if f == 'n':
            return None
        if f == 'x':
            return x
        m = to_msg(r, {})
        if f == 't':
            return x, m, tgt(r['t'])
        return (None if f == 'z' else x), m

    def _train(self, x, a=0, r=None):
        self.log(self.num, 'train', x, a, r)
        self.tr += 1
        s = self.nd['tr']
        return self.result(s[self.tr - 1], x) if self.tr <= len(s) else None

    def _stop_training(self, a=0):
        self.log(self.num, 'stop', None, a)
        return self.result(self.nd['sp'], data([5]))

    def _execute(self, x, a=0, r=None):
        self.log(self.num, 'exec', x, a, r)
        self.ex += 1
        s = self.nd['ex']
        y = self.map(x)
        return self.result(s[self.ex - 1], y) if self.ex <= len(s) else y


class BiWhole(Bi):
    """Takes the complete message instead of single values."""

    def _train(self, x, msg=None):
        m = msg or {}
        return Bi._train(self, x, m.get('a', 0), m.get('r'))

    def _stop_training(self, msg=None):
        return Bi._stop_training(self, (msg or {}).get('a', 0))

    def _execute(self, x, msg=None):
        m = msg or {}
        return Bi._execute(self, x, m.get('a', 0), m.get('r'))


def make(nd):
    return Plain if nd['k'] == 'plain' else BiWhole if nd['id'] == 'q' else Bi


class Driver(object):
    count = 0
    cls = bimdp.BiFlow
    cpcls = bimdp.BiCheckpointFlow

    def __init__(self, cfg):
        self.cfg = cfg
        self.log = Log()
        self.nodes = [make(nd)(i + 1, nd, self.log)
                      for i, nd in enumerate(cfg['nodes'])]
        self.flow = (self.cpcls if cfg['cp'] else self.cls)(self.nodes)
        self.plain = set(self.flow.__dict__)
        Driver.count += 1
        self.k = Driver.count

    def execute_args(self, op):
        cs = op['cs']
        self.k += 1
        if op['k'] == 'one':           # a single chunk
            c = cs[0]
            kw = {}
            m = to_msg(c['m'], None if c['x'] else {})
            if c['t']:
                kw['target_iterable'] = tgt(c['t'])
            return (data(c['x']), m), kw
        it = iter if op['k'] == 'iter' else list
        xs = it([data(c['x']) for c in cs])
        if cs and not cs[0]['x']:
            xs = None
        args, kw = [xs], {}
        if any(to_msg(c['m']) for c in cs) or (cs and xs is None):
            args.append(it([to_msg(c['m'], [None, {}][(self.k + i) % 2] if c['x'] else {}) for i, c in enumerate(cs)]))
        if any(c['t'] for c in cs):
            kw['target_iterable'] = it([tgt(c['t']) or None for c in cs])
        return args, kw

    def train_args(self, op):
        its = op['its']
        xs, ms = [], []
        for i in its:
            f = iter if i['k'] == 'iter' else list
            xs.append(None if i['k'] == 'none' else f([data(c['x']) for c in i['cs']]))
            self.k += 1
            has = any(to_msg(c['m']) for c in i['cs'])
            ms.append(f([to_msg(c['m'], [None, {}][(self.k + j) % 2]) for j, c in enumerate(i['cs'])])
                      if has else None)
        kw = {}
        if op['form'] == 'array':
            c = its[0]['cs'][0]
            xs = data(c['x'])
            if to_msg(c['m']):
                kw['msg_iterables'] = to_msg(c['m'])
        elif any(m is not None for m in ms):
            kw['msg_iterables'] = ms
        sms = [to_msg(m) for m in op['sms']]
        if any(m is not None for m in sms):
            kw['stop_messages'] = sms
        args = [xs]
        if self.cfg['cp']:
            cps = [self.checkpoint(i + 1, f) for i, f in enumerate(op['cps'])]
            args.append(cps)
        return args, kw

    def checkpoint(self, i, f):
        if f == 'none':
            return None

        def cp(node):
            if node is not self.nodes[i - 1]:
                raise AssertionError('foreign node')
            self.log(i, 'cp')
            return {'cp%d' % i: i} if f == 'dict' else None
        return cp

    def do(self, op):
        t, f = op['t'], self.flow
        self.log.ev = []
        out = {'e': False, 'y': [], 'a': 0, 'pa': 0, 'rs': []}
        if t in ('execute', 'train'):
            args, kw = self.execute_args(op) if t == 'execute' else self.train_args(op)
            fn = lambda: self.call(t, args, kw)
        elif t == 'get':
            fn = lambda: f[op['id']]
        elif t == 'has':
            fn = lambda: op['id'] in f
        elif t == 'set':
            fn = lambda: f.__setitem__(op['id'], self.nodes[0])
        else:
            fn = lambda: f.__delitem__(op['id'])
        k, v = common.outcome(fn)
        out['log'] = self.log.ev
        if k == 'exc':
            out['e'] = True
        elif t == 'execute':
            y, msg = v
            out['y'] = rows(y) if isinstance(y, np.ndarray) else []
            if not (y is None or y is False or isinstance(y, np.ndarray)):
                raise AssertionError('unexpected result %r' % (y,))
            for key, val in msg.items():
                if key == 'r':
                    out['rs'] = [int(z) for z in val]
                elif key in ('a', 'p->a'):
                    out['pa' if key != 'a' else 'a'] = val
                else:
                    raise AssertionError('unexpected key %r' % key)
        elif t == 'train':
            if v is not None:
                raise AssertionError('train returned %r' % (v,))
        elif t == 'get':
            out['y'] = [[i for i, n in enumerate(self.nodes, 1) if n is v][0]]
        elif t == 'has':
            out['y'] = [int(v)] if isinstance(v, bool) else ['?']
        return out

    def call(self, t, args, kw):
        return getattr(self.flow, t)(*args, **kw)

    def obs(self):
        f = self.flow
        return {'ph': [n.get_current_train_phase() if n.is_trainable() else 0 for n in self.nodes],
                'tr': [n.is_training() for n in self.nodes],
                'attrs': sorted(v for k, v in f.__dict__.items() if k not in self.plain),
                'same': len(f) == len(self.nodes) and all(a is b for a, b in zip(f, self.nodes))}

    def proj(self, s):
        return {'ph': [n['phase'] for n in s['ns']],
                'tr': [n['phase'] < c['n'] for n, c in zip(s['ns'], self.cfg['nodes'])],
                'attrs': sorted(s['attrs']), 'same': True}
