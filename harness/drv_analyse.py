"""Driver binding spec Analyse to the nodes that analyse or filter what they see."""
import fractions
import os
import pickle
import shutil
import tempfile
import weakref
import numpy as np
import mdp
import common

DT = {'f4': np.float32, 'f8': np.float64, 'i8': np.int64, 'i4': np.int32, 'u1': np.uint8, 'i2': np.int16}
N = mdp.nodes
NONE = 99


def noise(scale, size):
    """The noise is 2 times the number of the column."""
    return np.ones(size) * scale * np.arange(1, size[1] + 1)


class Driver(object):
    def __init__(self, cfg):
        self.cfg, self.node, self.dir = cfg, None, None

    def make(self):
        c = self.cfg
        kw = {'input_dim': c['i'] or None, 'dtype': DT[c['dt']] if c['dt'] else None}
        k = c['kind']
        if k == 'hit':
            return N.HitParadeNode(c['n'], c['gap'], **kw)
        if k == 'eta':
            return N.EtaComputerNode(**kw)
        if k == 'hist':
            return N.HistogramNode(**kw)
        if k == 'file':
            self.dir = tempfile.mkdtemp(prefix='verif-hist-')
            self.gone = weakref.finalize(self, shutil.rmtree, self.dir, True)
            return N.HistogramNode(hist_filename=os.path.join(self.dir, 'h'), **kw)
        if k == 'adaptive':
            return N.AdaptiveCutoffNode(c['lo'] / 4. or None, c['hi'] / 4. or None, **kw)
        if k == 'cutoff':
            lo, hi = [None if b == NONE else b for b in (c['lo'], c['hi'])]
            return N.CutoffNode(lo, hi, **kw)
        if k == 'noise':
            return N.NoiseNode(noise, (2,), noise_type='multiplicative' if c['mul'] else 'additive', **kw)
        return N.IdentityNode(**kw)

    def hits(self, which):
        v, t = getattr(self.node, 'get_' + which)()
        info = np.finfo if v.dtype.kind == 'f' else np.iinfo
        empty = info(v.dtype).min if which == 'maxima' else info(v.dtype).max
        res = []
        for c in range(v.shape[1]):
            h = [(common.exact_int(a), int(b)) for a, b in zip(v[:, c], t[:, c]) if a != empty]
            if which == 'maxima' and any(a[0] < b[0] for a, b in zip(h, h[1:])):
                return 'not in falling order'
            h.sort(key=lambda p: (-p[0] if which == 'maxima' else p[0], p[1]))
            res.append([list(p) for p in h])
        v[...] = t[...] = 88
        return res

    def eta(self):
        e, e2 = self.node.get_eta(), self.node.get_eta(t=4)
        if not np.allclose(e2, 4 * e):
            return 'not proportional to t'
        res = []
        for v in e:
            f = fractions.Fraction(float((2 * np.pi * v) ** 2)).limit_denominator(20000)
            res.append([f.numerator, f.denominator] if abs(float(f) - (2 * np.pi * v) ** 2) < 1e-9 * max(1, float(f)) else float(v))
        e[...] = 88
        return res

    def do(self, op):
        nd, t = self.node, op['t']
        x = keep = None
        if 'x' in op:
            x = np.array(op['x']['x'], dtype=DT[op['x']['dt']]).reshape(len(op['x']['x']), op['x']['cols'])
            keep = x.copy()
        k, v = common.outcome({
            'new': self.make, 'train': lambda: nd.train(x), 'stop': lambda: nd.stop_training(), 'execute': lambda: nd.execute(x),
            'inverse': lambda: nd.inverse(x),
            'maxima': lambda: self.hits(t), 'minima': lambda: self.hits(t), 'eta': self.eta}[t])
        out = {'e': k == 'exc', 'y': []}
        if k != 'exc' and t == 'new':
            self.node = v
        elif k != 'exc' and t in ('execute', 'inverse'):
            out['y'] = common.int_rows(v)
        elif k != 'exc' and v is not None:
            out['y'] = v
        if x is not None:
            if not np.array_equal(x, keep):
                out['touched'] = True
            x[...] = 66
        return out

    def hist(self):
        h = self.node.data_hist
        if h is None and self.dir and os.path.exists(os.path.join(self.dir, 'h')):
            with open(os.path.join(self.dir, 'h'), 'rb') as f:
                return ['file', common.int_rows(pickle.load(f))]
        return ['node', [] if h is None else common.int_rows(h)]

    def obs(self):
        nd = self.node
        if nd is None:
            return {'made': False}
        return {'made': True, 'i': nd.input_dim or 0, 'o': nd.output_dim or 0, 'train': nd.is_training(),
                'dt': [k for k in DT if nd.dtype == DT[k]] if nd.dtype is not None else [],
                'hist': self.hist() if self.cfg['kind'] in ('hist', 'file', 'adaptive') else [],
                'flags': [nd.is_trainable(), nd.is_invertible()]}

    def proj(self, s):
        if not s['made'] or s['bad']:
            return {'made': False} if not s['bad'] else '*'
        k = self.cfg['kind']
        return {'made': True, 'i': s['i'], 'o': s['i'], 'train': s['train'] in ('new', 'on'), 'dt': [s['dt']] if s['dt'] else [],
                'hist': ['file' if k == 'file' and s['train'] == 'done' else 'node', s['hist']] if k in ('hist', 'file', 'adaptive') else [],
                'flags': [k not in ('cutoff', 'noise', 'ident'), k not in ('cutoff', 'noise')]}
