"""Driver binding spec Classify to the classifier nodes."""
import math
import numpy as np
import mdp
from mdp import ClassifierNode, IsNotTrainableException
import common

N = mdp.nodes
DT = {'f4': np.float32, 'f8': np.float64, 'i8': np.int64, 'i1': np.int8}
NAME = {np.dtype(v).name: k for k, v in DT.items()}
UNIT = 2520.


def array(x):
    return np.array(x['x'], dtype=DT[x['dt']]).reshape(len(x['x']), x['cols'])


class Driver(object):
    def __init__(self, cfg):
        self.cfg, self.node, self.seen, self.keep = cfg, None, [], []

    def new(self):
        c = self.cfg
        kw = {'execute_method': c['em'] or None, 'input_dim': c['i'] or None, 'dtype': DT[c['dt']] if c['dt'] else None}
        k = c['kind']
        if k == 'cumul':
            del kw['execute_method']
            return mdp.ClassifierCumulator(**kw)
        if k == 'hopfield':
            del kw['dtype']
            return N.DiscreteHopfieldClassifier(**kw)
        if k == 'knn':
            return N.KNNClassifier(k=c['k'], **kw)
        if k == 'kmeans':
            return N.KMeansClassifier(c['k'], max_iter=c['mi'], **kw)
        nd = {'signum': N.SignumClassifier, 'perceptron': N.PerceptronClassifier, 'markov': N.SimpleMarkovClassifier,
              'gauss': N.GaussianClassifier, 'mean': N.NearestMeanClassifier}[k](**kw)
        if k == 'perceptron':
            nd.learning_rate = c['lr'] / 2.
        return nd

    # labels of the spec and of the node
    def to(self, l):
        return {'int': l, 'str': 'L%d' % l, 'frac': l + .5}[self.cfg['lt']]

    def fro(self, v):
        k = self.cfg['kind']
        if k == 'hopfield':
            return [int(a) for a in v]
        if self.cfg['lt'] == 'str' and k not in ('signum', 'perceptron', 'kmeans'):
            return int(v[1:]) if isinstance(v, str) and v[1:].isdigit() else 'label:%r' % (v,)
        v = float(v) - (.5 if self.cfg['lt'] == 'frac' and k not in ('signum', 'perceptron', 'kmeans') else 0)
        return int(v) if v == int(v) else 'label:%r' % v

    def labels(self, op):
        l = [self.to(a) for a in op['l']]
        return {'one': lambda: l[0], 'list': lambda: l, 'tuple': lambda: tuple(l), 'array': lambda: np.array(l)}[op['form']]()

    def answer(self, what, v, op, x):
        c, nd = self.cfg, self.node
        if what not in ('label', 'prob', 'rank') or c['kind'] == 'cumul':
            return op['x']['x'] if isinstance(v, np.ndarray) and np.array_equal(v, array(op['x'])) else 'changed:%r' % (v,)
        if len(v) != len(op['x']['x']):
            return 'answers:%d' % len(v)
        if what == 'label':
            if c['kind'] == 'kmeans':
                op['res'] = {'q': [self.fro(a) for a in v], 'train': [self.fro(a) for a in nd.label(np.array(self.seen or op['x']['x']))]}
                return 'clusters'
            if c['kind'] == 'gauss':
                p = nd.prob(x)
                return 'most probable' if all(q[l] >= max(q.values()) - 1e-12 for q, l in zip(p, v)) else '%r %r' % (v, p)
            return [self.fro(a) for a in v]
        if what == 'rank':
            if c['kind'] == 'gauss':
                thr = op['thr'] / UNIT
                ok = all(len(set(r)) == len(r) and set(r) == {l for l in q if q[l] > thr or op['thr'] < 0}
                         and all(q[a] >= q[b] for a, b in zip(r, r[1:])) for r, q in zip(v, nd.prob(x)))
                return 'by probability' if ok else repr(v)
            return [[self.fro(a) for a in r] for r in v]
        if c['kind'] == 'gauss':
            return [self.gauss(p, q) for p, q in zip(v, op['q'])]
        return [sorted([self.fro(a), int(round(b * UNIT)) if abs(b * UNIT - round(b * UNIT)) < 1e-6 else b] for a, b in p.items()) for p in v]

    def gauss(self, p, want):
        p = {self.fro(a): float(b) for a, b in p.items()}
        if abs(sum(p.values()) - 1) > 1e-9 or sorted(p) != [w[0] for w in want]:
            return repr(p)
        l0, (a0, b0), _ = want[0]
        for l, (a, b), (num, den) in want:
            try:
                v = 2 * (math.log(p[l]) - math.log(p[l0])) + a / b - a0 / b0
                ok = abs(v - math.log(num / den)) < 1e-8
            except ValueError:
                ok = False
            if not ok:
                return repr(p)
        return want

    def run(self, op, x):
        t, nd = op['t'], self.node
        if t == 'new':
            self.node = self.new()
        elif t == 'train':
            lab = () if op['form'] == 'none' else (self.labels(op),)
            try:
                nd.train(x, *lab)
            finally:
                if lab and isinstance(lab[0], np.ndarray):
                    lab[0][...] = lab[0][::-1].copy()
                elif lab and isinstance(lab[0], list):
                    lab[0].reverse()
        elif t == 'stop':
            nd.stop_training()
        elif t == 'execute':
            return nd.execute(x)
        elif t == 'rank':
            return nd.rank(x) if op['thr'] < 0 else nd.rank(x, threshold=op['thr'] / UNIT)
        elif self.cfg['kind'] == 'hopfield' and t == 'label' and op['thr']:
            return nd.label(x, threshold=op['thr'])
        else:
            return getattr(nd, t)(x)

    def do(self, op):
        x = array(op['x']) if 'x' in op else None
        t = op['t']
        with np.errstate(all='ignore'):
            k, v = common.outcome(self.run, op, x)
            out = {'e': k == 'exc', 'y': []}
            if k != 'exc' and t in ('label', 'prob', 'rank', 'execute'):
                out['y'] = self.answer(self.cfg['em'] if t == 'execute' else t, v, op, x)
        if k != 'exc' and t == 'train':
            self.seen += op['x']['x']
        if self.cfg['kind'] == 'kmeans' and t not in ('new', 'train') and 'x' in op and not self.seen and not self.node.is_training():
            self.seen = op['x']['x']        # it has trained itself with what it was asked
        if self.cfg['kind'] == 'kmeans' and 'res' not in op:
            op['res'] = {'q': [], 'train': []}
        if x is not None:
            if not np.array_equal(x, array(op['x'])):
                out['touched'] = True
            x[...] = 7
        return out

    def obs(self):
        nd = self.node
        if nd is None:
            return {'made': False}
        o = {'made': True, 'i': nd.input_dim or 0, 'o': nd.output_dim or 0, 'dt': NAME[np.dtype(nd.dtype).name] if nd.dtype is not None else '',
             'flags': [nd.is_trainable(), nd.is_training(), nd.is_training() and nd._train_phase_started]}
        k, done = self.cfg['kind'], not nd.is_training()
        if k == 'cumul':
            o['n'] = nd.tlen
            if done:
                o['data'] = [[[int(a) for a in row] for row in nd.data.tolist()], [self.fro(l) for l in nd.labels.tolist()]]
        elif k == 'hopfield' and nd.input_dim:
            o['n'] = int(round(nd.load_parameter * nd.memory_size, 6))
        elif k == 'markov':
            o['n'] = nd.ntotal_connections
        elif k == 'knn' and done:
            o['n'] = nd.n_samples
        return o

    def proj(self, s):
        if not s['made']:
            return {'made': False}
        o = {'made': True, 'i': s['i'], 'o': s['i'], 'dt': s['dt'], 'flags': [self.cfg['kind'] != 'signum', s['train'] in ('new', 'on'), s['train'] == 'on']}
        k, done = self.cfg['kind'], s['train'] == 'done'
        if k in ('cumul', 'markov') or k == 'hopfield' and s['i'] or k == 'knn' and done:
            o['n'] = len(s['data'])
        if k == 'cumul' and done:
            o['data'] = [[p['x'] for p in s['data']], [p['l'] for p in s['data']]]
        return o
