"""C20: execution caching."""
import common
import drv_cache


def cfg(r):
    p = r.choice([2, 2, 3])
    return {'nodes': [{'cls': r.choice('AB'), 'kind': r.choice(['plain', 'train', 'train', 'online']), 'p': r.choice([p, p, 5]),
                       'w': r.choice([0, 1, 2])} for _ in range(r.choice([1, 2, 2, 3]))]}


def op(r, c, d, k):
    n = len(c['nodes'])
    u = r.random()
    if k == 0 and u < .6:
        return {'t': 'activate', 'dir': 'd1', 'all': True, 'cs': [], 'is': []}
    if u < .16:
        al = r.random() < .4
        cs, ins = sorted(set(r.choices('AB', k=r.choice([0, 1, 1])))), sorted(r.sample(range(1, n + 1), r.randint(0, n)))
        return {'t': r.choice(['activate', 'activate', 'enter']), 'dir': r.choice(['', 'd1', 'd1', 'd2']), 'all': al,
                'cs': [] if al else cs, 'is': [] if al else ins}
    if u < .18 and drv_cache.ce._memory is not None:
        return {'t': 'generic'}
    if u < .21:
        return {'t': 'leave'} if d.open else {'t': 'deactivate'}
    if u < .24:
        return {'t': 'setdir', 'dir': r.choice(['', 'd1', 'd2'])}
    if u < .3:
        return {'t': 'setinst', 'i': r.randint(1, n), 'on': r.random() < .6}
    i = r.randint(1, n)
    w = d.nodes[i - 1].input_dim or r.randint(1, 2)
    fresh = c['nodes'][i - 1]['kind'] == 'train' and d.nodes[i - 1].input_dim and not d.nodes[i - 1]._train_phase_started
    x = {'v': r.choice([1, 2, 2]), 'w': w + (r.random() < (.3 if fresh else .08)), 'dt': r.choice(['f8', 'f8', 'f8', 'f4'])}
    if u < .38:
        return {'t': 'train', 'i': i, 'x': x}
    if u < .41:
        return {'t': 'stop', 'i': i}
    if u < .46:
        return {'t': 'setp', 'i': i, 'v': r.choice([2, 3, 5])}
    return {'t': 'execute', 'i': i, 'x': x, 'a': r.choice([0, 0, 0, 4, 99])}


def run(chk):
    for mode in ('select', 'state'):
        res = chk.explore('MC_Cache', env={'TIER': common.TIER, 'MODE': mode})
        tr = res.emitted['T']
        chk.replay(tr, drv_cache.Driver, label='caching ' + mode)
    r = common.rng('cache')
    traces = []
    for k in range(common.quick(400, 4000)):
        c = cfg(r)
        n = r.randint(8, 25)
        traces.append(chk.record(drv_cache.Driver, c, lambda d, k: op(r, c, d, k) if k < n else None))
    chk.compare('TR_Cache', traces, label='caching')
    chk.assumptions += ['caching needs joblib, which is installed here', 'nodes compute the same result from the same state and input']
