"""Every kind of node and flow of the library, with data to train and to probe it."""
import random
import warnings
import numpy as np
import mdp
import mdp.parallel
import bimdp
import common

N, H, B = mdp.nodes, mdp.hinet, bimdp.nodes
W = 4


def _mix(seed, n, w=W):
    r = np.random.RandomState(seed)
    t = np.arange(n)
    x = np.column_stack([np.sin(t * .31 + seed), ((t * 7 + seed) % 11) / 5. - 1, np.sign(np.sin(t * .13 + 1)), r.uniform(-1, 1, n)])
    m = np.array([[1, .4, -.3, .2], [.1, 1, .5, -.4], [-.2, .3, 1, .6], [.5, -.1, .2, 1]])
    return x.dot(m)[:, :w] + r.normal(0, .05, (n, w))


_g = np.arange(-1.4, 1.5, .9)
PROBE = np.array([[a, b, a + .31 * b, b * a - .23] for a in _g for b in _g])


class Kind(object):
    """make: () -> node; labels: chunk -> extra training arguments; n: rows of a chunk;
    show: (node, probe) -> array; phases: training phases; exact: no rounding allowed."""

    def __init__(self, make, labels=None, n=30, show=None, phases=1, x=None, whole=False, w=W, inverse=False, extra=None):
        self.make, self.labels, self.n, self.phases, self.whole, self.w = make, labels, n, phases, whole, w
        self.show = show or (lambda nd, x: nd.execute(x))
        self.x = x or (lambda c, n: _mix(c, n, w))
        self.inverse, self.extra = inverse, extra

    def chunk(self, c):
        """Training arguments made from chunk number c."""
        x = self.x(c, self.n + c)
        return (x,) if self.labels is None else (x, self.labels(x, c))


def wave(scale, size):
    return np.sin(np.arange(size[0] * size[1])).reshape(size) * scale


def two(x, c):
    return np.arange(len(x)) % 2


def two_column(x, c):
    return two(x, c).reshape(-1, 1).astype(float)


def signs(x, c):
    return two(x, c) * 2 - 1


def half(x, c):
    return x[:, :2] * .5 + c


def probs(nd, x):
    return np.array([[p[k] for k in sorted(p)] for p in nd.prob(x)])


def labels(nd, x):
    return np.array(nd.label(x)).astype(float).reshape(len(x), -1)


def first(nd, x):
    y = nd.execute(x)
    return y[0] if isinstance(y, tuple) else y


def flow(*nodes):
    return mdp.Flow(list(nodes))


def hits(nd, x):
    return np.concatenate([np.concatenate(nd.get_maxima()), np.concatenate(nd.get_minima())])


def graph(nd, x):
    return nd.get_nodes_position()


def biflow_show(fl, x):
    y = fl.execute(x)
    return y[0] if isinstance(y, tuple) else y


ZOO = {
    'PCA': Kind(lambda: N.PCANode(output_dim=3), inverse=True), 'PCAsvd': Kind(lambda: N.PCANode(svd=True)), 'Whitening': Kind(lambda: N.WhiteningNode()),
    'NIPALS': Kind(lambda: N.NIPALSNode(output_dim=2), n=40),
    'CuBICA': Kind(lambda: N.CuBICANode()), 'FastICA': Kind(lambda: N.FastICANode(limit=.01, max_it=300, g='tanh', approach='symm')), 'TDSEP': Kind(lambda: N.TDSEPNode(lags=2)),
    'JADE': Kind(lambda: N.JADENode()), 'ICAoutput': Kind(lambda: N.CuBICANode(white_comp=3), inverse=True),
    'SFA': Kind(lambda: N.SFANode(), inverse=True), 'SFA2': Kind(lambda: N.SFA2Node(), n=60), 'Vartime': Kind(lambda: N.VartimeSFANode()),
    'ISFA': Kind(lambda: N.ISFANode(lags=1, output_dim=2)), 'XSFA': Kind(lambda: N.XSFANode((N.PolynomialExpansionNode, (1,), {}), (N.PolynomialExpansionNode, (1,), {}), output_dim=2), n=60, phases=6),
    'FDA': Kind(lambda: N.FDANode(output_dim=1), two, phases=2), 'FA': Kind(lambda: N.FANode(output_dim=2, max_cycles=20)),
    'RBM': Kind(lambda: N.RBMNode(3), show=lambda nd, x: nd.sample_h((x > 0) * 1.)[0], x=lambda c, n: (_mix(c, n) > 0) * 1.),
    'RBML': Kind(lambda: N.RBMWithLabelsNode(3, 1), two_column, show=lambda nd, x: nd.sample_h((x > 0) * 1., (x[:, :1] > 0) * 1.)[0], x=lambda c, n: (_mix(c, n) > 0) * 1.),
    'Linear': Kind(lambda: N.LinearRegressionNode(), half), 'GNG': Kind(lambda: N.GrowingNeuralGasNode(max_nodes=8, lambda_=10), show=graph),
    'NG': Kind(lambda: N.NeuralGasNode(num_nodes=4, max_epochs=3), show=graph), 'GNGX': Kind(lambda: N.GrowingNeuralGasExpansionNode(max_nodes=5), n=40),
    'LLE': Kind(lambda: N.LLENode(8, .01, output_dim=2), n=20), 'HLLE': Kind(lambda: N.HLLENode(10, .001, output_dim=2), n=20),
    'CCIPCA': Kind(lambda: N.CCIPCANode(output_dim=2, numx_rng=np.random.RandomState(4))), 'CCIPCAW': Kind(lambda: N.CCIPCAWhiteningNode(output_dim=2, numx_rng=np.random.RandomState(4))), 'MCA': Kind(lambda: N.MCANode(output_dim=2, numx_rng=np.random.RandomState(4))),
    'IncSFA': Kind(lambda: N.IncSFANode(output_dim=2, numx_rng=np.random.RandomState(4))), 'Centering': Kind(lambda: N.OnlineCenteringNode()), 'TimeDiff': Kind(lambda: N.OnlineTimeDiffNode()),
    'Normalize': Kind(lambda: N.NormalizeNode()), 'Adaptive': Kind(lambda: N.AdaptiveCutoffNode(.2, .3)), 'Hist': Kind(lambda: N.HistogramNode(), show=lambda nd, x: np.array(nd.data_hist)),
    'Hit': Kind(lambda: N.HitParadeNode(3, 2), show=hits), 'Eta': Kind(lambda: N.EtaComputerNode(), show=lambda nd, x: nd.get_eta()),
    'NRecursive': Kind(lambda: N.NormalizingRecursiveExpansionNode(degree=3)), 'Recursive': Kind(lambda: N.RecursiveExpansionNode(degree=3), phases=0),
    'Poly': Kind(lambda: N.PolynomialExpansionNode(2), phases=0), 'RBF': Kind(lambda: N.RBFExpansionNode([[0.] * W, [1.] * W], [1., 2.]), phases=0),
    'Frames': Kind(lambda: N.TimeFramesNode(2, 2), phases=0), 'Delay': Kind(lambda: N.TimeDelayNode(2, 2), phases=0), 'Identity': Kind(lambda: N.IdentityNode(), phases=0),
    'Slide': Kind(lambda: N.TimeDelaySlidingWindowNode(2, 2), phases=0, show=lambda nd, x: np.concatenate([nd.execute(r[None]) for r in x])),
    'Cutoff': Kind(lambda: N.CutoffNode(-.5, .5), phases=0), 'NormalNoise': Kind(lambda: N.NormalNoiseNode(), phases=0), 'Noise': Kind(lambda: N.NoiseNode(wave, (2,), 'multiplicative'), phases=0),
    'Gauss': Kind(lambda: N.GaussianClassifier(), two, show=probs), 'Mean': Kind(lambda: N.NearestMeanClassifier(), two, show=labels),
    'KNN': Kind(lambda: N.KNNClassifier(k=3), two, show=labels), 'KMeans': Kind(lambda: N.KMeansClassifier(2, 5), show=labels),
    'Perceptron': Kind(lambda: N.PerceptronClassifier(), signs, show=labels), 'Markov': Kind(lambda: N.SimpleMarkovClassifier(dtype='i'), lambda x, c: list(two(x, c)), show=lambda nd, x: np.array([[p.get(k, 0) for k in (0, 1)] for p in nd.prob((x > 0).astype(int))]), x=lambda c, n: (_mix(c, n) > 0).astype(int)),
    'Signum': Kind(lambda: N.SignumClassifier(), phases=0, show=labels),
    'Hopfield': Kind(lambda: N.DiscreteHopfieldClassifier(), show=lambda nd, x: nd._weight_matrix, x=lambda c, n: _mix(c, n) > 0),
    'FlowNode': Kind(lambda: H.FlowNode(flow(N.PCANode(output_dim=3), N.PolynomialExpansionNode(2), N.SFANode(output_dim=2))), phases=2),
    'Layer': Kind(lambda: H.Layer([N.PCANode(input_dim=2, output_dim=1), N.SFANode(input_dim=2)])),
    'Layer2': Kind(lambda: H.Layer([N.PCANode(input_dim=2), H.FlowNode(flow(N.WhiteningNode(input_dim=2), N.SFANode(input_dim=2)))]), phases=2),
    'Clone': Kind(lambda: H.CloneLayer(N.SFANode(input_dim=2), 2)), 'Same': Kind(lambda: H.SameInputLayer([N.PCANode(input_dim=W), N.SFANode(input_dim=W)])),
    'Nest': Kind(lambda: H.FlowNode(flow(H.Switchboard(W, [3, 2, 1, 0]), H.Layer([H.FlowNode(flow(N.PCANode(input_dim=2), N.SFANode(input_dim=2))), N.IdentityNode(input_dim=2)]), N.WhiteningNode())), phases=3),
    'BoardMean': Kind(lambda: H.MeanInverseSwitchboard(W, [0, 1, 1, 3]), phases=0),
    'BiSFA': Kind(lambda: B.SFABiNode(), show=first), 'BiPCA': Kind(lambda: B.PCABiNode(output_dim=2), show=first), 'BiFDA': Kind(lambda: B.FDABiNode(output_dim=1), None, show=first, phases=2, extra=lambda x, c: {'labels': two(x, c)}),
    'BiFlowNode': Kind(lambda: bimdp.hinet.BiFlowNode(bimdp.BiFlow([B.PCABiNode(output_dim=3), B.SFABiNode()])), show=first, phases=2),
    'BiClone': Kind(lambda: bimdp.hinet.CloneBiLayer(B.SFABiNode(input_dim=2), 2), show=first),
    'BiCopies': Kind(lambda: bimdp.hinet.CloneBiLayer(B.SFABiNode(input_dim=2), 2, use_copies=True), show=first),
    'Flow': Kind(lambda: flow(N.PCANode(output_dim=3), N.PolynomialExpansionNode(2), N.SFANode(output_dim=2)), whole=True),
    'FlowNested': Kind(lambda: flow(H.FlowNode(flow(N.PCANode(), N.SFANode())), H.Layer([N.PCANode(input_dim=2), N.SFANode(input_dim=2)])), whole=True),
    'Checkpoint': Kind(lambda: mdp.CheckpointFlow([N.PCANode(), N.SFANode()]), whole=True),
    'BiFlow': Kind(lambda: bimdp.BiFlow([B.PCABiNode(output_dim=3), N.SFANode()]), whole=True, show=biflow_show),
    'ParallelFlow': Kind(lambda: mdp.parallel.ParallelFlow([N.PCANode(), N.SFANode()]), whole=True),
}


def new(kind):
    seed()
    return ZOO[kind].make()


def seed():
    np.random.seed(5)
    random.seed(5)


def train(kind, node, c):
    """Train with chunk c and overwrite it afterwards."""
    z = ZOO[kind]
    args = z.chunk(c)
    seed()
    if kind == 'Checkpoint':
        node.train(args[0], checkpoints=[None, None])
    elif z.whole:
        node.train(args[0])
    elif z.extra:
        node.train(args[0], z.extra(args[0], c))
    else:
        node.train(*args)
    for a in args:
        if isinstance(a, np.ndarray):
            a[...] = 0


def show(kind, node):
    """What a trained node says about the probe."""
    seed()
    z = ZOO[kind]
    x = PROBE[:, :z.w].copy()
    y = np.array(z.show(node, x))
    return y
