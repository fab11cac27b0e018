"""Driver binding spec BiNode to bimdp.BiNode."""
import numpy as np
import mdp
import bimdp
from bimdp import BiNode, binode_coroutine
import common

FULL = {'a': 'a', 'b': 'b', 'c': 'c', 'x': 'x', 'Na': 'N->a', 'Nb': 'N->b', 'Nc': 'N->c', 'Ma': 'M->a',
        'tgt': 'target', 'Ntgt': 'N->target', 'meth': 'method', 'Nmeth': 'N->method'}
BACK = dict((v, k) for k, v in FULL.items())
TGT = {'1': 1, '-1': -1, '2': 2, 'id': 'id', 'exit': bimdp.EXIT_TARGET}
TBACK = dict((v, k) for k, v in TGT.items())
STR = ('tgt', 'Ntgt', 'meth', 'Nmeth')
X = np.array([[1., 2.]])
BAD = np.array([[1., 2., 3.]])
Y = np.array([[5., 6.]])


class _Absent(object):
    def __repr__(self):
        return 'ABSENT'


ABSENT = _Absent()


def to_msg(m):
    if not m['k']:
        return None
    out = {}
    for k in FULL:
        v = m[k]
        if v in (0, ''):
            continue
        out[FULL[k]] = TGT[v] if k in ('tgt', 'Ntgt') else X if k == 'x' else v
    return out


def from_msg(msg):
    out = {'k': msg is not None}
    for k in FULL:
        out[k] = '' if k in STR else 0
    for k, v in (msg or {}).items():
        if k not in BACK:
            raise AssertionError('unexpected message key %r' % (k,))
        k = BACK[k]
        out[k] = TBACK[v] if k in ('tgt', 'Ntgt') else (9 if v is X else -1) if k == 'x' else v
    return out


class Hooks(object):
    """Mixed into the node; the methods are generated below."""
    log = None
    hooks = None

    def hook(self, name, x, a=ABSENT, b=ABSENT, msg=None):
        self.log.append({'n': name, 'x': xcode(x),
                         'a': 0 if a is ABSENT else a, 'b': 0 if b is ABSENT else b,
                         'm': from_msg(msg)})
        r = self.hooks[name]['r']
        if r['m'] == 'none':
            m = None
        elif r['m'] == 'empty':
            m = {}
        elif r['m'] == 'c':
            m = {'c': 30, 'a': 10}
        else:
            m = {} if msg is None else msg
            m.pop('c', None)
            m['b'] = 60
        f = r['f']
        y = None if f[0] == 'n' else Y
        if f == 'none':
            return None
        if f == 'x':
            return y
        if len(f) == 2:
            return y, m
        return y, m, TGT[r['t']]


def xcode(x):
    if x is None:
        return ''
    if type(x) is np.ndarray and np.array_equal(x, X):
        return 'x'
    return 'bad' if type(x) is np.ndarray and np.array_equal(x, BAD) else '?'


def method(name, h):
    hasx = name in ('execute', 'inverse', 'train', 'train2', 'other')
    sig, call = ['self'], [repr(name), 'x' if hasx else 'None']
    if hasx:
        sig.append('x')
    opt = []
    for k in ('a', 'b'):
        if h[k] == 'req':
            sig.append(k)
        elif h[k] == 'opt':
            opt.append(k + '=ABSENT')
        if h[k] != 'no':
            call.append('%s=%s' % (k, k))
    if h['msg']:
        opt.append('msg=None')
        call.append('msg=msg')
    ns = {'ABSENT': ABSENT}
    src = 'def _%s(%s):\n    return self.hook(%s)\n' % (name, ', '.join(sig + opt), ', '.join(call))
    exec(src, ns)
    return ns['_' + name]


def coroutine(cfg):
    def note(self, x, a, b):
        self.log.append({'n': 'execute', 'x': xcode(x),
                         'a': 0 if a in (ABSENT, 77) else a, 'b': 0 if b in (ABSENT, 88) else b,
                         'm': from_msg(None)})

    @binode_coroutine(['a', 'b'], defaults=(77, 88))
    def _execute(self, x, a=77):
        note(self, x, a, ABSENT)
        b = ABSENT
        for j in range(cfg['co']):
            if cfg['cot']:
                x, a, b = yield (Y, {'c': 31 + j}, TGT[cfg['cot']])
            else:
                x, a, b = yield (Y, {'c': 31 + j})
            note(self, x, a, b)
        if cfg['cor'] == 'none':
            return
        if cfg['cor'] == 'x':
            return Y
        return Y, {'c': 99}
    return _execute


_classes = {}


def node_class(cfg):
    key = common.short(cfg, 10000)
    if key not in _classes:
        if len(_classes) > 400:
            _classes.clear()
        ns = {}
        m = cfg['m']
        for n in ('execute', 'inverse', 'other', 'train'):
            ns['_' + n] = method(n, m[n])
        ns['_stop_training'] = method('stop', m['stop'])
        ns['_tr2'] = method('train2', m['train2'])
        ns['_st2'] = method('stop2', m['stop2'])
        if cfg['co']:
            ns['_execute'] = coroutine(cfg)
        ns['is_trainable'] = staticmethod(lambda: cfg['n'] > 0)
        ns['is_invertible'] = staticmethod(lambda: cfg['inv'])
        ns['_get_train_seq'] = lambda self: [(self._train, self._stop_training),
                                             (self._tr2, self._st2)][:cfg['n']]
        _classes[key] = type('Probe', (Hooks, BiNode), ns)
    return _classes[key]


class Driver(object):
    def __init__(self, cfg):
        self.cfg = cfg
        cls = node_class(cfg)
        kw = {}
        if cfg['sr'] != 'no':
            if cfg['n'] < 2:
                kw['stop_result'] = ({'a': 40}, 1)
            else:
                kw['stop_result'] = [({'a': 41}, 'id'), ({}, None)]
        self.sr = str(kw.get('stop_result'))
        self.kw = kw
        self.node = cls(node_id='N' if cfg['id'] else None, input_dim=2, output_dim=2, dtype='d', **kw)
        self.node.log = []
        self.node.hooks = cfg['m']

    def do(self, op):
        n = self.node
        n.log = []
        t = op['t']
        msg = to_msg(op['m'])
        x = {'x': X.copy(), '': None, 'bad': BAD.copy()}[op['x']]
        if t == 'reset':
            fn = n.bi_reset
        elif t == 'stop':
            fn = (lambda: n.stop_training()) if msg is None else (lambda: n.stop_training(msg))
        elif msg is None:
            fn = lambda: getattr(n, t)(x)
        else:
            fn = lambda: getattr(n, t)(x, msg)
        k, v = common.outcome(fn)
        out = {'e': k == 'exc', 'f': 'none', 'y': False, 'm': from_msg(None), 't': '', 'calls': n.log}
        if k != 'exc' and v is not None:
            tup = v if isinstance(v, tuple) else (v,)
            out['f'] = {1: 'x', 2: 'xm', 3: 'xmt'}.get(len(tup), '?')
            if isinstance(v, tuple) and len(v) == 1:
                out['f'] = '1-tuple'
            out['y'] = '?' if tup[0] is not None and tup[0] is not Y else tup[0] is Y
            if len(tup) > 1:
                out['m'] = from_msg(tup[1])
            if len(tup) > 2:
                out['t'] = TBACK.get(tup[2], '' if tup[2] is None else '?')
        if str(self.kw.get('stop_result')) != self.sr:
            raise AssertionError('stop_result was modified')
        if x is not None and not np.array_equal(x, X if op['x'] == 'x' else BAD):
            raise AssertionError('input was modified')
        return out

    def obs(self):
        n = self.node
        return {'phase': n.get_current_train_phase() if self.cfg['n'] else 0, 'training': n.is_training()}

    def proj(self, s):
        return {'phase': s['phase'], 'training': s['training']}
