"""Driver binding spec Switch to the switchboards of mdp.hinet and bimdp."""
import numpy as np
import mdp
import bimdp
from mdp import hinet
import common
from drv_layer import DT, NAME, mat, rows


class MeanChannelSwitchboard(hinet.MeanInverseSwitchboard, hinet.ChannelSwitchboard):
    pass


class Driver(object):
    count = 0

    def __init__(self, cfg):
        self.cfg, self.sb = cfg, None
        Driver.count += 1
        self.k = Driver.count

    def make(self):
        c = self.cfg
        con = list(c['con'])
        if self.k % 3 == 1:
            con = tuple(con)
        elif self.k % 3 == 2:
            con = np.array(con, dtype=int)
        self.given, self.kept = con, list(c['con'])
        kw = {'input_dim': c['din'], 'connections': con}
        if 'chan' in c['kind']:
            kw.update(out_channel_dim=c['och'], in_channel_dim=c['ich'])
        cls = {'plain': hinet.Switchboard, 'mean': hinet.MeanInverseSwitchboard,
               'chan': hinet.ChannelSwitchboard, 'meanchan': MeanChannelSwitchboard,
               'bi': bimdp.hinet.BiSwitchboard, 'bichan': bimdp.hinet.ChannelBiSwitchboard}[c['kind']]
        return cls(**kw)

    def msg(self, m):
        return {e['k']: np.array(e['x'], dtype='d').reshape(len(e['x']), e['w']) if e['a'] else e['x'] for e in m}

    def unmsg(self, m, like):
        out = []
        for e in like:
            v = m.get(e['k'], 'missing')
            if isinstance(v, np.ndarray):
                out.append({'k': e['k'], 'a': True, 'w': v.shape[1], 'x': rows(v)})
            else:
                out.append({'k': e['k'], 'a': False, 'w': e['w'], 'x': v})
        return out + [{'k': k} for k in sorted(m) if k not in [e['k'] for e in like]]

    def do(self, op):
        t, sb = op['t'], self.sb
        self.k += 1
        out = {'e': False, 'y': [], 'dt': '', 'm': []}
        x = mat(op['d']) if 'd' in op else None
        keep = None if x is None else x.copy()
        msg = self.msg(op['m']) if 'm' in op else None
        if msg is not None and op['none']:
            x = None
        kind, v = common.outcome({
            'new': self.make, 'execute': lambda: (sb if self.k % 3 else sb.execute)(x),
            'inverse': lambda: sb.inverse(x),
            'bexec': lambda: sb.execute(x, msg), 'binverse': lambda: sb.execute(x, dict(msg, method='inverse')),
            'outin': lambda: sb.get_out_channel_input(op['c']),
            'outnode': lambda: sb.get_out_channel_node(op['c']).execute(x),
            'ins': lambda: sb.get_out_channels_input_channels(
                op['cs'][0] if len(op['cs']) == 1 and self.k % 2 else list(op['cs']))}[t])
        if kind == 'exc':
            out['e'] = True
        elif t == 'new':
            self.sb = v
        elif t in ('bexec', 'binverse'):
            y, m = v[:2]
            m.pop('method', None)     # travels on to the next node (see BiNode)
            if v[2:] != ((-1,) if t == 'binverse' else ()):
                out['target'] = repr(v[2:])
            out['m'] = self.unmsg(m, op['m'])
            if y is not None:
                out['y'], out['dt'] = rows(y), NAME[y.dtype.name]
        elif t in ('outin', 'ins'):
            out['y'] = rows([v])
        else:
            if t in ('execute', 'inverse') and isinstance(v, tuple):
                v = v[0]
            out['y'], out['dt'] = rows(v), NAME[v.dtype.name]
        if x is not None and not (x.dtype == keep.dtype and np.array_equal(x, keep)):
            out['touched'] = True
        if msg is not None and not common.eq(self.unmsg(msg, op['m']), op['m']):
            out['touched'] = True
        if x is not None and not out['e'] and 'y' in out and isinstance(v, np.ndarray) and np.shares_memory(v, x):
            # results are the caller's own
            out['shared'] = True
        return out

    def obs(self):
        sb = self.sb
        if sb is None:
            return {'made': False}
        o = {'made': True, 'in': sb.input_dim, 'od': sb.output_dim,
             'dt': NAME[sb.dtype.name] if sb.dtype is not None else '', 'inv': bool(sb.is_invertible()),
             'trainable': sb.is_trainable(), 'con': [int(v) for v in sb.connections],
             'given': [int(v) for v in self.given] == self.kept}
        if 'chan' in self.cfg['kind']:
            o['ch'] = [sb.out_channel_dim, sb.in_channel_dim, sb.output_channels, sb.input_channels]
        return o

    def proj(self, s):
        if not s['made']:
            return {'made': False}
        c = self.cfg
        con = c['con']
        o = {'made': True, 'in': c['din'], 'od': len(con), 'dt': s['dt'],
             'inv': 'mean' in c['kind'] or sorted(con) == list(range(c['din'])), 'trainable': False,
             'con': con, 'given': True}
        if 'chan' in c['kind']:
            o['ch'] = [c['och'], c['ich'], len(con) // c['och'], c['din'] // c['ich']]
        return o
