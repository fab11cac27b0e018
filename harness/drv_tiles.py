"""Driver binding spec Tiles to the 2-d switchboards and their factory."""
import numpy as np
import mdp
import bimdp
from mdp import hinet
from mdp.hinet import switchboard, switchboard_factory
import common

CLS = {'rect': 'Rectangular2d', 'drect': 'DoubleRect2d', 'rhomb': 'DoubleRhomb2d', 'chan': 'Channel'}


class Driver(object):
    count = 0

    def __init__(self, cfg):
        self.sb, self.kind = None, ''
        Driver.count += 1
        self.k = Driver.count

    def pair(self, v):
        """'_xy' values are pairs or one number for both."""
        v = list(v)
        self.k += 1
        return v[0] if v[0] == v[1] and self.k % 2 else tuple(v) if self.k % 3 else v

    def cls(self, k, bi=False):
        return getattr(bimdp.hinet, CLS[k] + 'BiSwitchboard') if bi else getattr(hinet, CLS[k] + 'Switchboard')

    def kw(self, k, op):
        if k == 'rect':
            kw = {'field_channels_xy': self.pair(op['f']), 'field_spacing_xy': self.pair(op['sp'])}
        elif k == 'drect':
            kw = {'field_channels_xy': self.pair(op['f'])}
        elif k == 'rhomb':
            return {'field_size': op['d']} if op['t'] == 'next' else {'diag_field_channels': op['d']}
        else:
            return {}
        if op['t'] == 'next':
            # the factory ignores uncovered channels unless told otherwise
            if not op['ign'] or self.k % 2:
                kw['ignore_cover'] = op['ign']
        elif op['ign']:
            kw['ignore_cover'] = True
        return kw

    def direct(self, op):
        k = op['t']
        kw = self.kw(k, op)
        kw['long_in_channels_xy' if k == 'rhomb' else 'in_channels_xy'] = self.pair(op['xy'])
        if op['ch'] != 1 or self.k % 2:
            kw['in_channel_dim'] = op['ch']
        bi = self.k % 4 == 0
        return self.cls(k, bi)(**kw)

    def nxt(self, op):
        k = op['k']
        par = self.kw(k, op)
        keep = dict(par)
        dim = self.sb.output_channels * op['m']
        bi = op['bi'] or self.k % 4 == 0
        with mdp.extension('switchboard_factory'):
            kw = {'node_id': 'n'} if bi else {}
            try:
                return self.cls(k, bi).create_switchboard(free_params=par, prev_switchboard=self.sb,
                                                          prev_output_dim=dim, **kw)
            finally:
                if par != keep or any(type(par[q]) is not type(keep[q]) for q in keep):
                    self.note = 'the parameters of the factory were changed: %r -> %r' % (keep, par)

    def coord(self, op):
        tr = switchboard.CoordinateTranslator(*op['xy'])
        x, y, n = op['x'], op['y'], op['n']
        res = []
        for f in (lambda: tr.image_to_index(x, y), lambda: tr.array_to_index(*tr.image_to_array(x, y))):
            k, v = common.outcome(f)
            res.append(-1 if k == 'exc' else v)
        for f in (lambda: tr.index_to_image(n), lambda: tr.array_to_image(*tr.index_to_array(n))):
            k, v = common.outcome(f)
            res.append([-1, -1] if k == 'exc' else list(v))
        ok = res[0] == res[1] and res[2] == res[3]
        return [res[0]] + res[2] if ok else res

    def do(self, op):
        t = op['t']
        self.k += 1
        self.note = ''
        f = {'image': lambda: switchboard_factory.get_2d_image_switchboard(self.pair(op['xy'])),
             'next': lambda: self.nxt(op), 'coord': lambda: self.coord(op)}.get(t, lambda: self.direct(op))
        k, v = common.outcome(f)
        if k == 'exc':
            return {'e': True, 'y': []}
        if t == 'coord':
            return {'e': False, 'y': v}
        self.kind = 'rect' if t == 'image' else op['k'] if t == 'next' else t
        self.sb = v
        return {'e': False, 'y': [self.note] if self.note else []}

    def obs(self):
        sb = self.sb
        if sb is None:
            return {'has': False}
        k = self.kind
        x = np.arange(1, sb.input_dim + 1)[None, :] * 1.
        y = sb.execute(x)
        y = y[0] if isinstance(y, tuple) else y
        return {'has': True, 'k': k, 'in': sb.input_dim, 'od': sb.output_dim, 'con': [int(c) for c in sb.connections],
                'och': sb.out_channel_dim, 'ich': sb.in_channel_dim, 'n': sb.output_channels, 'nin': sb.input_channels,
                'out': list(sb.out_channels_xy) if k in ('rect', 'rhomb') else [],
                'unused': list(sb.unused_channels_xy) if k in ('rect', 'drect') else [],
                'long': list(sb.long_out_channels_xy) if k == 'drect' else
                list(sb.long_in_channels_xy) if k == 'rhomb' else [],
                'y': [int(c) - 1 for c in y[0]]}

    def proj(self, s):
        if not s['has']:
            return {'has': False}
        sb = s['sb']
        return {'has': True, 'k': sb['k'], 'in': sb['in'], 'od': len(sb['con']), 'con': sb['con'], 'och': sb['och'],
                'ich': sb['ich'], 'n': sb['n'], 'nin': sb['in'] // sb['ich'], 'out': sb['out'], 'unused': sb['unused'],
                'long': sb['long'], 'y': sb['con']}
