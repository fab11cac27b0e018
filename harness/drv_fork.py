"""Driver binding spec Fork to the nodes with support for parallel training."""
import copy
import random
import numpy as np
import mdp
import mdp.parallel
import bimdp
import common

N, H = mdp.nodes, mdp.hinet
WIDE = ('layer', 'clone', 'biclone', 'bicopies', 'layers', 'xlayer', 'xdeep', 'xclone')


def _chunks():
    r = random.Random(7)
    res = {}
    for c in range(5):
        n = 14 + c
        x = [[r.randint(-4, 4) + (c if j == 0 else 0) for j in range(4)] for _ in range(n)]
        l = [t % 2 if c != 2 else 2 + t % 2 for t in range(n)]
        res[c] = np.array(x, dtype=float), np.array(l)
    return res


CH = _chunks()
_g = np.arange(-6.37, 7, 1.31)
PROBE = np.array([[a, b, a + .21 * b, b - .33] for a in _g for b in _g])


class Tally(mdp.Node):
    """A user's node that collects data while it is executed."""

    def __init__(self, input_dim=None, output_dim=None, dtype=None):
        super(Tally, self).__init__(input_dim, output_dim, dtype)
        self.seen = {}

    def is_trainable(self):
        return False

    def _execute(self, x):
        n = 2 if 28 <= len(x) <= 36 else 1       # (a CloneLayer may hand over all its channels at once)
        self.seen[len(x) // n] = self.seen.get(len(x) // n, 0) + n
        return x + 0


class ParallelTally(mdp.parallel.ParallelExtensionNode, Tally):
    def _fork(self):
        return self._default_fork()

    def _join(self, forked):
        for k, v in forked.seen.items():
            self.seen[k] = self.seen.get(k, 0) + v

    def use_execute_fork(self):
        return True


def tallied(node):
    """What the parts have collected."""
    if isinstance(node, Tally):
        return dict(node.seen)
    if isinstance(node, H.CloneLayer):
        return tallied(node.node)
    res = {}
    for n in list(getattr(node, 'nodes', ())) + list(getattr(node, 'flow', ())):
        for k, v in tallied(n).items():
            res[k] = res.get(k, 0) + v
    return res


def flow():
    return H.FlowNode(mdp.Flow([N.PCANode(input_dim=2, output_dim=2), N.SFANode(input_dim=2)]))


MAKE = {
    'pca': lambda: N.PCANode(output_dim=2), 'white': lambda: N.WhiteningNode(), 'svd': lambda: N.PCANode(svd=True),
    'sfa': lambda: N.SFANode(), 'sfa0': lambda: N.SFANode(include_last_sample=False, dtype='d'), 'sfa2': lambda: N.SFA2Node(),
    'gauss': lambda: N.GaussianClassifier(), 'mean': lambda: N.NearestMeanClassifier(), 'knn': lambda: N.KNNClassifier(k=3),
    'hist': lambda: N.HistogramNode(), 'cutoff': lambda: N.AdaptiveCutoffNode(lower_cutoff_fraction=.2, upper_cutoff_fraction=.3),
    'fda': lambda: N.FDANode(), 'flow': flow,
    'layer': lambda: H.Layer([N.PCANode(input_dim=2), N.SFANode(input_dim=2)]),
    'clone': lambda: H.CloneLayer(N.SFANode(input_dim=2), n_nodes=2),
    'layers': lambda: H.Layer([N.PCANode(input_dim=2), flow()]),
    'tally': lambda: Tally(input_dim=2), 'xclone': lambda: H.CloneLayer(Tally(input_dim=2), n_nodes=2),
    'xflow': lambda: H.FlowNode(mdp.Flow([Tally(input_dim=2, output_dim=2), N.PCANode(input_dim=2)])),
    'xlayer': lambda: H.Layer([N.PCANode(input_dim=2), Tally(input_dim=2)]),
    'xdeep': lambda: H.Layer([H.FlowNode(mdp.Flow([Tally(input_dim=2, output_dim=2)] * 1 + [Tally(input_dim=2)])), N.PCANode(input_dim=2)]),
    'biclone': lambda: bimdp.hinet.CloneBiLayer(bimdp.nodes.SFABiNode(input_dim=2), n_nodes=2),
    'bicopies': lambda: bimdp.hinet.CloneBiLayer(bimdp.nodes.SFABiNode(input_dim=2), n_nodes=2, use_copies=True),
}
LABELLED = ('gauss', 'mean', 'knn', 'fda')


def train(kind, node, c):
    x, l = CH[c]
    x = x.copy() if kind in WIDE else x[:, :2].copy()
    if kind == 'knn':
        x += .01 * np.sin(np.arange(len(x)) * 1.7 + 10 * c)[:, None]      # no ties
    if kind in LABELLED:
        if c == 3 and kind != 'fda':
            node.train(x, 1)
        else:
            l = l % 2 if kind in ('fda', 'knn') else l.copy()      # (knn: no ties)
            node.train(x, l)
            l[...] = 9
    else:
        node.train(x)
    x[...] = 55


def finish(kind, node):
    """The result of a training that ends here (the node itself is not touched)."""
    k, v = common.outcome(_finish, kind, node)
    return v if k != 'exc' else np.array('fails: %s' % (v,))


def _finish(kind, node):
    node = copy.deepcopy(node)
    while node.is_training():
        try:
            node.stop_training()
        except mdp.TrainingException:
            train(kind, node, 0)
            node.stop_training()
    x = PROBE if kind in WIDE else PROBE[:, :2].copy()
    if kind == 'gauss':
        return np.array([[p[l] for l in sorted(p)] for p in node.prob(x[::7])])
    if kind in ('mean', 'knn'):
        return np.array(node.label(x))
    if kind == 'hist':
        return np.array(sorted(node.data_hist.tolist()))
    y = node.execute(x)
    return np.abs(y[0] if isinstance(y, tuple) else y)


class Registry(object):
    """Numbers for results that are the same up to rounding."""

    def __init__(self):
        self.seen = {}

    def __call__(self, kind, v):
        if v.dtype.kind in 'US':
            return v.tolist()
        known = self.seen.setdefault((kind, v.shape), [])
        for k, w in enumerate(known):
            if np.allclose(v, w, rtol=1e-6, atol=1e-7):
                return '%s%s#%d' % (kind, v.shape, k)
        known.append(v)
        return '%s%s#%d' % (kind, v.shape, len(known) - 1)


name = Registry()
_ref = {}


def dims(kind, node):
    # (the fork of a CloneBiLayer names the dtype its nodes have already)
    t = '' if node.dtype is None or kind in ('biclone', 'bicopies') else node.dtype.name
    return [node.input_dim or 0, node.output_dim or 0, t]


def reference(kind, bag, ph):
    key = kind, ph, repr(bag)
    if key not in _ref:
        node = MAKE[kind]()
        for p in range(ph):
            if p < len(bag):
                for c, n in enumerate(bag[p]):
                    for _ in range(n):
                        train(kind, node, c + 1)
            if p < ph - 1:
                node.stop_training()
        _ref[key] = name(kind, finish(kind, node)), dims(kind, node)
    return _ref[key]


class Driver(object):
    def __init__(self, cfg):
        self.cfg, self.nodes, self.dead = cfg, [], set()

    def close(self):
        pass

    def run(self, op):
        t, k = op['t'], self.cfg['kind']
        if t == 'new':
            self.nodes = [MAKE[k]()]
            return
        nd = self.nodes[op['j'] - 1]
        if t == 'train':
            train(k, nd, op['c'])
        elif t == 'exec':
            x = CH[op['c']][0]
            nd.execute(x.copy() if k in WIDE else x[:, :2].copy())
        elif t == 'fork':
            self.nodes.append(nd.fork())
        elif t == 'join':
            nd.join(self.nodes[op['k'] - 1])
            self.dead.add(op['k'] - 1)
        elif t == 'stop':
            nd.stop_training()
            self.dead = set(range(len(self.nodes))) - {op['j'] - 1}

    def do(self, op):
        with mdp.extension('parallel'):
            k, v = common.outcome(self.run, op)
        out = {'e': k == 'exc'}
        return out

    def obs(self):
        n, k = self.cfg['n'], self.cfg['kind']
        with mdp.extension('parallel'):
            return [None if j in self.dead else
                    {'left': nd.get_remaining_train_phase(), 'out': name(k, finish(k, nd)), 'dims': dims(k, nd), 'xf': bool(nd.use_execute_fork()),
                     'ex': [tallied(nd).get(14 + c, 0) for c in range(1, n + 1)]}
                    for j, nd in enumerate(self.nodes)]

    def proj(self, s):
        c, res = self.cfg, []
        with mdp.extension('parallel'):
            for n in s['nodes']:
                out, fixed = reference(c['kind'], n['bag'], n['ph'])
                known = n['ph'] > c['phases'] or any(n['bag'][n['ph'] - 1])
                res.append(None if n['dead'] else
                           {'left': c['phases'] + 1 - n['ph'], 'out': out, 'ex': n['ex'], 'xf': c['x']['e'] > 0, 'dims': fixed if known and not c['x']['e'] else '*'})
        return res
