"""C28: two-dimensional switchboards and their factory."""
import common
import drv_tiles


def op(r, d):
    u = r.random()
    xy = lambda a, b: [r.randint(a, b), r.randint(a, b)]
    if d.sb is None or u < .35:
        t = r.choice(['image', 'rect', 'drect', 'drect', 'rhomb'])
        if t == 'image':
            return {'t': t, 'xy': xy(1, 9)}
        if t == 'rhomb':
            g = r.choice([2, 2, 4, 4, 3, 6])
            b = r.randint(1, 8)
            return {'t': t, 'xy': r.choice([[b, b + r.randint(0, 3)], [b + r.randint(0, 3), b]]), 'd': g, 'ch': r.randint(1, 3)}
        f = xy(1, 4)
        ign = r.random() < .5
        if t == 'rect':
            return {'t': t, 'xy': xy(1, 9), 'f': f, 'sp': xy(1, 4), 'ch': r.randint(1, 3), 'ign': ign}
        f = [2 * q for q in xy(1, 2)]
        z = [q * r.randint(1, 3) + (r.random() < .3) for q in f]
        return {'t': t, 'xy': z, 'f': f, 'ch': r.randint(1, 2), 'ign': ign}
    if u < .45:
        z = xy(1, 5)
        return {'t': 'coord', 'xy': z, 'x': r.randint(-1, 5), 'y': r.randint(-1, 5), 'n': r.randint(-1, z[0] * z[1])}
    k = r.choice(['chan', 'rect', 'rect', 'drect', 'drect', 'rhomb', 'rhomb'])
    return {'t': 'next', 'k': k, 'm': r.randint(1, 2), 'f': xy(1, 4) if k == 'rect' else [2, r.choice([2, 4])], 'sp': xy(1, 3),
            'd': r.choice([2, 2, 4, 3]), 'ign': r.random() < .7, 'bi': r.random() < .3}


def run(chk):
    for mode in ('rect', 'drect', 'rhomb', 'factory'):
        res = chk.explore('MC_Tiles', env={'TIER': common.TIER, 'MODE': mode})
        chk.replay(res.emitted['T'], drv_tiles.Driver, label='switchboard ' + mode)
    r = common.rng('tiles')
    traces = []
    for k in range(common.quick(150, 2000)):
        n = r.randint(2, 5)
        traces.append(chk.record(drv_tiles.Driver, {'m': 'random'},
                                 lambda d, k: op(r, d) if k < n and (d.sb is None or len(d.sb.connections) < 400) else None))
    chk.compare('TR_Tiles', traces, label='switchboard tiling')
    chk.assumptions += ['fields may leave gaps between them when their spacing exceeds their size; only the border is checked',
                        'output dimensions handed to the factory are multiples of the number of channels']
