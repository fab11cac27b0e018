"""Driver binding spec Delay to the time window and delay nodes."""
import numpy as np
import mdp
import common

DT = {'f4': np.float32, 'f8': np.float64, 'i8': np.int64, 'i4': np.int32, 'u1': np.uint8, 'ob': np.object_}
NAME = {np.dtype(v).name: k for k, v in DT.items()}
CLS = {'frames': mdp.nodes.TimeFramesNode, 'delay': mdp.nodes.TimeDelayNode, 'slide': mdp.nodes.TimeDelaySlidingWindowNode}


def array(x):
    a = np.array(x['x'], dtype=DT[x['dt']]).reshape(len(x['x']), x['cols'])
    return a[0] if x['rank'] == 1 else a


class Driver(object):
    def __init__(self, cfg):
        self.cfg, self.node = cfg, None

    def do(self, op):
        c, nd, t = self.cfg, self.node, op['t']
        x = array(op['x']) if 'x' in op else None
        keep = None if x is None else x.copy()
        k, v = common.outcome({
            'new': lambda: CLS[c['kind']](c['tf'], c['gap'], input_dim=c['i'] or None, dtype=DT[c['dt']] if c['dt'] else None),
            'execute': lambda: nd.execute(x), 'pinv': lambda: nd.pseudo_inverse(x), 'inverse': lambda: nd.inverse(x),
            'setin': lambda: setattr(nd, 'input_dim', op['n']), 'setout': lambda: setattr(nd, 'output_dim', op['n'])}[t])
        out = {'e': k == 'exc', 'y': [], 'dt': ''}
        if k != 'exc' and t == 'new':
            self.node = v
        elif k != 'exc' and v is not None:
            out['y'], out['dt'] = common.int_rows(v), NAME[v.dtype.name]
            v[...] = 77           # results are the caller's own
        if x is not None:
            if v is not None and k != 'exc' and np.shares_memory(x, v):
                out['shared'] = True
            elif not np.array_equal(x, keep):
                out['touched'] = True
            x[...] = 66
        return out

    def obs(self):
        nd = self.node
        if nd is None:
            return {'made': False}
        return {'made': True, 'i': nd.input_dim or 0, 'o': nd.output_dim or 0,
                'dt': NAME[nd.dtype.name] if nd.dtype is not None else '',
                'flags': [nd.is_trainable(), nd.is_invertible(), nd.is_training()]}

    def proj(self, s):
        if not s['made']:
            return {'made': False}
        return {'made': True, 'i': s['i'], 'o': s['i'] * self.cfg['tf'], 'dt': s['dt'], 'flags': [False, False, False]}
