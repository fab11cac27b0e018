"""Driver binding spec Cov to the covariance accumulators of mdp.utils."""
import warnings
import numpy as np
import mdp
from mdp import utils
import common

DT = {'f4': np.float32, 'f8': np.float64}
NAME = {np.dtype(v).name: k for k, v in DT.items()}


def ints(a, scale, tol):
    """Exact integers behind the floating point numbers `a` * `scale`."""
    a = np.asarray(a, dtype=float) * scale
    if a.ndim == 2:
        return [ints(r, 1, tol) for r in a]
    return [int(round(v)) if np.isfinite(v) and abs(v - round(v)) < tol + 1e-9 * abs(v) else 'nonint:%r' % v for v in a]


class Driver(object):
    def __init__(self, cfg):
        self.cfg, self.o, self.two, self.fixed = cfg, None, None, []

    def new(self):
        c = self.cfg
        dt = DT[c['dt']] if c['dt'] else None
        if c['kind'] == 'multi':
            return utils.MultipleCovarianceMatrices([np.array(m, dtype=float) for m in c['covs']])
        if c['kind'] == 'delay':
            return utils.DelayCovarianceMatrix(c['lag'], dtype=dt, bias=c['bias'])
        if c['kind'] == 'vart':
            return utils.VartimeCovarianceMatrix(dtype=dt)
        cls = {'cov': utils.CovarianceMatrix, 'cross': utils.CrossCovarianceMatrix}[c['kind']]
        return cls(dtype=dt, bias=c['bias'])

    def data(self, x, dt):
        return np.array(x, dtype=DT[dt]).reshape(len(x), -1 if x else 2)

    def run(self, op):
        c, t, o = self.cfg, op['t'], self.o
        if t == 'new':
            self.o = self.new()
        elif t == 'update':
            args = [self.data(op['x'], op['dt'])]
            kw = {}
            if c['kind'] == 'cross':
                args.append(self.data(op['y'], op['dt2']))
            if c['kind'] == 'vart':
                kw['time_dep'] = op['td']
                if op['dk'] == 'const':
                    kw['dt'] = op['inc'][0]
                elif op['dk'] == 'seq':
                    kw['dt'] = np.array(op['inc'], dtype=float)
            keep = [a.copy() for a in args]
            try:
                o.update(*args, **kw)
            finally:
                self.touched = any(not np.array_equal(a, b) for a, b in zip(args, keep))
                for a in args:
                    a[...] = 77
        elif t == 'fix':
            k = c['kind']
            if k == 'delay':
                a = np.array(op['A'], dtype=DT[c['dt'] or 'f8']) if op['A'] else None
                return o.fix(a)
            return o.fix() if k == 'cross' or op['center'] and len(self.fixed) % 2 else o.fix(center=op['center'])
        elif t == 'sym':
            o.symmetrize()
        elif t == 'weight':
            o.weight(op['w'][0] if op['one'] else op['w'])
        elif t == 'rotate':
            o.rotate(op['q'] * np.pi / 2, [op['i'] - 1, op['j'] - 1])
        elif t == 'permute':
            o.permute([op['i'] - 1, op['j'] - 1])
        elif t == 'transform':
            o.transform(np.array(op['m'], dtype=float))
        elif t == 'copy':
            self.two = o.copy()
        elif t == 'swap' and self.two is not None:
            self.o, self.two = self.two, o

    def do(self, op):
        self.touched = False
        with warnings.catch_warnings(), np.errstate(all='ignore'):
            warnings.simplefilter('ignore')
            k, v = common.outcome(self.run, op)
        out = {'e': k == 'exc', 'cov': [], 'avg': [], 'avg2': [], 'n': 0, 'dt': ''}
        if self.touched:
            out['touched'] = True
        if k != 'exc' and op['t'] == 'fix':
            c = self.cfg
            cov, avg, n = v[0], v[1], v[-1]
            out['n'] = common.exact_int(n)
            dt = out['dt'] = NAME.get(avg.dtype.name, str(avg.dtype))
            if avg.dtype.name != cov.dtype.name and not op['A']:
                out['dt'] += '/' + cov.dtype.name
            tol = .3 if dt == 'f4' else 1e-4
            d = 4 * n * n if c['kind'] == 'vart' else n * n if c['bias'] else n * (n - 1)
            out['cov'] = ints(cov, d, tol)
            if n == 1 and not c['bias'] and c['kind'] != 'vart':
                out['cov'] = [['?' for _ in r] for r in out['cov']]
            out['avg'] = ints(avg, 2 * n if c['kind'] == 'vart' else n, tol)
            if len(v) == 4:
                out['avg2'] = ints(v[2], n, tol)
            self.fixed.append((v, [np.array(a) for a in v]))
        # results given earlier stay as they were
        for old, keep in self.fixed:
            if not all(np.array_equal(a, b, equal_nan=True) for a, b in zip(old, keep)):
                out['changed'] = True
        return out

    def mats(self, o):
        if o is None:
            return []
        c = o.copy()
        r = [ints(o[k], 1, 1e-4) for k in range(o.ncovs)]
        if r != [ints(c[k], 1, 1e-4) for k in range(c.ncovs)]:
            r.append('copy differs')
        return r

    def obs(self):
        if self.o is None or self.cfg['kind'] != 'multi':
            return self.o is not None
        return [self.mats(self.o), self.mats(self.two)]

    def proj(self, s):
        if not s['made'] or self.cfg['kind'] != 'multi':
            return s['made']
        return [s['covs'], s['two']]
