"""Driver binding spec Copies to every kind of node and flow of the library."""
import copy
import os
import pickle
import tempfile
import types
import numpy as np
import mdp
import common
import zoo


def finish(kind, obj):
    k, v = common.outcome(_finish, kind, obj)
    return ('exc', '%s %s' % (type(v).__name__, v)) if k == 'exc' else ('ok', v)


def _finish(kind, obj):
    """The end of a training that stops here (the object itself is not touched)."""
    z = zoo.ZOO[kind]
    obj = copy.deepcopy(obj)
    if z.whole:
        if any(n.is_trainable() and n.is_training() for n in obj):
            zoo.train(kind, obj, 3)
    else:
        while obj.is_trainable() and obj.is_training():
            try:
                zoo.seed()
                obj.stop_training()
            except mdp.TrainingException:
                zoo.train(kind, obj, 3)
                zoo.seed()
                obj.stop_training()
    return zoo.show(kind, obj)


class Registry(object):
    def __init__(self):
        self.seen = {}

    def __call__(self, kind, r):
        if r[0] == 'exc':
            return 'fails: %s' % r[1]
        v = np.asarray(r[1], dtype=complex if np.asarray(r[1]).dtype.kind == 'c' else float)
        known = self.seen.setdefault((kind, v.shape), [])
        for k, w in enumerate(known):
            if np.allclose(v, w, rtol=1e-7, atol=1e-9, equal_nan=True):
                return '%s%s#%d' % (kind, v.shape, k)
        known.append(v)
        return '%s%s#%d' % (kind, v.shape, len(known) - 1)


name = Registry()
_ref = {}


def act(kind, obj, a):
    if a == 's':
        zoo.seed()
        obj.stop_training()
    elif a == 'x':
        zoo.show(kind, obj)
    else:
        zoo.train(kind, obj, int(a))


def reference(kind, log):
    key = kind, tuple(log)
    if key not in _ref:
        obj = zoo.new(kind)
        for a in log:
            act(kind, obj, a)
        _ref[key] = name(kind, finish(kind, obj))
    return _ref[key]


def ruin(obj, seen=None, depth=0):
    """Overwrite all the object holds: arrays, lists, dictionaries, nodes inside."""
    seen = set() if seen is None else seen
    if id(obj) in seen or depth > 12:
        return
    seen.add(id(obj))
    if isinstance(obj, np.ndarray):
        if obj.dtype == object:
            for v in obj.flat:
                ruin(v, seen, depth + 1)
        elif obj.flags.writeable and not isinstance(obj, np.memmap):
            obj[...] = 1 if obj.dtype.kind == 'b' else '' if obj.dtype.kind in 'US' else 77
    elif isinstance(obj, (list, tuple)):
        for v in obj:
            ruin(v, seen, depth + 1)
        if isinstance(obj, list):
            del obj[:]
    elif isinstance(obj, dict):
        for v in list(obj.values()):
            ruin(v, seen, depth + 1)
        obj.clear()
    elif isinstance(obj, (type, types.ModuleType, types.FunctionType, types.BuiltinFunctionType, np.dtype, np.generic)):
        return
    elif isinstance(obj, types.MethodType):
        ruin(obj.__self__, seen, depth + 1)
    elif type(obj).__module__.split('.')[0] in ('mdp', 'bimdp') and hasattr(obj, '__dict__'):
        d = dict(obj.__dict__)
        for v in d.values():
            ruin(v, seen, depth + 1)
        for k in d:
            obj.__dict__[k] = None


class Driver(object):
    def __init__(self, cfg):
        self.cfg, self.objs, self.dead = cfg, [], set()

    def duplicate(self, obj, way):
        if way == 'copy':
            return obj.copy()
        if way == 'deep':
            return copy.deepcopy(obj)
        if way in ('string', 'text'):
            return pickle.loads(obj.save(None, *([] if way == 'string' else [0])))
        f, path = tempfile.mkstemp(prefix='verif-copy-')
        os.close(f)
        try:
            obj.save(path, *([] if way == 'file' else [0]))
            with open(path, 'rb') as f:
                return pickle.load(f)
        finally:
            os.remove(path)

    def run(self, op):
        t, k = op['t'], self.cfg['kind']
        if t == 'new':
            self.objs = [zoo.new(k)]
            return
        obj = self.objs[op['j'] - 1]
        if t == 'train':
            act(k, obj, op['c'])
        elif t == 'stop':
            act(k, obj, 's')
        elif t == 'exec':
            if self.left(obj):
                raise mdp.MDPException('not asked')      # untrained objects would train themselves
            act(k, obj, 'x')
        elif t == 'copy':
            self.objs.append(self.duplicate(obj, op['way']))
        elif t == 'ruin':
            ruin(obj)
            self.dead.add(op['j'] - 1)

    def do(self, op):
        if op['t'] == 'train' and self.cfg['whole'] and not self.left(self.objs[op['j'] - 1]):
            return {'e': True}                           # trained flows warn only
        return {'e': common.outcome(self.run, op)[0] == 'exc'}

    def left(self, obj):
        if self.cfg['kind'] == 'XSFA':
            return int(obj.is_training())        # finds out how many phases it needs on the way
        if self.cfg['whole']:
            return int(any(n.is_trainable() and n.is_training() for n in obj))
        return obj.get_remaining_train_phase() if obj.is_trainable() else 0

    def obs(self):
        k = self.cfg['kind']
        return [None if i in self.dead else {'left': self.left(o), 'cls': type(o).__name__, 'out': name(k, finish(k, o))}
                for i, o in enumerate(self.objs)]

    def proj(self, s):
        c = self.cfg
        return [None if o['dead'] else {'left': int(o['ph'] <= c['phases']) if c['kind'] == 'XSFA' else c['phases'] + 1 - o['ph'], 'cls': type(zoo.new(c['kind'])).__name__,
                                        'out': reference(c['kind'], o['log'])} for o in s['objs']]
