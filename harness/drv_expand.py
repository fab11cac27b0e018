"""Driver binding spec Expand to the expansion nodes."""
import numpy as np
import mdp
from mdp.nodes import expansion_nodes, recursive_expansion_nodes as R
import common

DT = {'f4': np.float32, 'f8': np.float64, 'i8': np.int64}
NAME = {np.dtype(v).name: k for k, v in DT.items()}
FUNC = {'id': lambda x: x, 'sq': lambda x: x ** 2, 'norm': lambda x: (x ** 2).sum(axis=1).reshape(-1, 1),
        'one': lambda x: np.ones((len(x), 2)), 'ends': lambda x: x[:, :1] - x[:, -1:], 'none': lambda x: x[:, :0]}

OWN = {'own_%s' % k: (R.init_standard_poly, R.recf_standard_poly) + b for k, b in
       (('box', (0., 4.)), ('neg', (-float('inf'), 0.)))}


def array(x):
    return np.array(x['x'], dtype=DT[x['dt']]).reshape(len(x['x']), x['cols'])


def near(v, tol):
    v = float(v)
    return int(round(v)) if np.isfinite(v) and abs(v - round(v)) <= tol + 1e-9 * abs(v) else 'nonint:%r' % v


class Driver(object):
    def __init__(self, cfg):
        self.cfg, self.node, self.keep = cfg, None, []

    def new(self):
        c, N = self.cfg, mdp.nodes
        kw = {'input_dim': c['i'] or None, 'dtype': DT[c['dt']] if c['dt'] else None}
        k = c['kind']
        if k == 'poly':
            return N.PolynomialExpansionNode(c['deg'], **kw)
        if k == 'quad':
            return N.QuadraticExpansionNode(**kw)
        if k in ('rec', 'norm'):
            cls = N.RecursiveExpansionNode if k == 'rec' else N.NormalizingRecursiveExpansionNode
            return cls(c['deg'], recf=OWN.get(c['fam'], c['fam']), check=c['check'], with0=c['with0'], **kw)
        if k == 'general':
            return N.GeneralExpansionNode([FUNC[f] for f in c['funcs']], **kw)
        sizes = [np.array(m) for m in c['covs']] or list(c['sizes'])
        return N.RBFExpansionNode(np.array(c['centers']), sizes[0] if c['one'] else sizes, dtype=kw['dtype'])

    def run(self, op, x):
        t, nd = op['t'], self.node
        if t == 'new':
            self.node = self.new()
        elif t == 'execute':
            return nd.execute(x)
        elif t == 'train':
            nd.train(x)
        elif t == 'stop':
            nd.stop_training()
        elif t == 'inverse':
            nd.inverse(x)
        elif t == 'setin':
            nd.input_dim = op['n']
        elif t == 'setout':
            nd.output_dim = op['n']
        elif t == 'count':
            return expansion_nodes.nmonomials(op['d'], op['n']), expansion_nodes.expanded_dim(op['d'], op['n'])

    def do(self, op):
        x = array(op['x']) if 'x' in op else None
        keep = None if x is None else x.copy()
        with np.errstate(all='ignore'):
            k, v = common.outcome(self.run, op, x)
        out = {'e': k == 'exc', 'y': []}
        if k != 'exc' and op['t'] == 'count':
            out['y'] = [list(v)]
        elif k != 'exc' and op['t'] == 'execute':
            if v is None:
                return {'e': False, 'y': 'None'}
            y = np.asarray(v)
            with np.errstate(all='ignore'):
                if self.cfg['kind'] == 'rbf':
                    y = -2 * np.log(y.astype(float))
            out['y'] = [[near(a * sc, 1e-6 if v.dtype == np.float64 else 1e-3) for a in row] for row, sc in zip(y.tolist(), op['scale'])]
            if v.dtype != self.node.dtype:
                out['dtype'] = str(v.dtype)
        if x is not None:
            if k != 'exc' and v is not None and np.shares_memory(x, v) and op['t'] == 'execute':
                out['shared'] = True
            if not np.array_equal(x, keep):
                out['touched'] = True
            x[...] = 3
        for a, b in self.keep:
            if not np.array_equal(a, b, equal_nan=True):
                out['changed'] = True
        if k != 'exc' and op['t'] == 'execute':
            self.keep.append((v, v.copy()))
        return out

    def obs(self):
        nd = self.node
        if nd is None:
            return {'made': False}
        return {'made': True, 'i': nd.input_dim or 0, 'o': nd.output_dim if nd.input_dim else 0, 'dt': NAME[nd.dtype.name] if nd.dtype is not None else '',
                'flags': [nd.is_trainable(), nd.is_training(), nd.is_invertible()]}

    def proj(self, s):
        if not s['made']:
            return {'made': False}
        return {'made': True, 'i': s['i'], 'o': s['o'], 'dt': s['dt'],
                'flags': [self.cfg['kind'] == 'norm', s['train'] in ('new', 'on'), False]}
