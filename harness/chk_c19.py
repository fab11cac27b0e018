"""C19: graphs."""
import common
import drv_graph


def tree(r, n):
    return {'kids': [tree(r, n - 1) for _ in range(r.choice([0, 1, 1, 2, 3]) if n else 0)]}


def query(r, alive):
    if not alive or r.random() < .35:
        return {'t': r.choice(['topo', 'comps', 'weak'] if alive else ['topo', 'comps'])}
    return {'t': r.choice(['dfs', 'bfs', 'udfs', 'ubfs']), 'a': r.choice(alive)}


def op(r, d, k):
    alive = d.names(d.g.nodes)
    u = r.random()
    if not alive or u < .08:
        return r.choice([{'t': 'node'}, {'t': 'nodes', 'k': r.randint(0, 4)}, {'t': 'tree', 'tree': tree(r, 2)}])
    if u < .4:
        return {'t': 'edge', 'h': r.choice(alive), 'd2': r.choice(alive), 'd': k}
    if u < .44:
        return {'t': 'full', 'hs': r.sample(alive, min(2, len(alive))), 'ts': r.sample(alive, min(2, len(alive)))}
    if u < .52:
        return {'t': 'rmnode', 'a': r.randint(1, len(d.by))}
    if u < .65:
        es = [d.edge(e) for e in list(d.g.edges) * 4 + d.old]
        h, t, n = r.choice(es or [[1, 1, 99]])
        return {'t': 'rmedge', 'h': h, 'd2': t, 'd': n}
    return query(r, alive)


def run(chk):
    res = chk.explore('MC_Graph', env={'TIER': common.TIER, 'MODE': 'mut'})
    chk.replay(res.emitted['T'], drv_graph.Driver, label='graph')
    r = common.rng('graph')
    # every small graph, with all queries
    res = chk.explore('MC_Graph', env={'TIER': common.TIER, 'MODE': 'all'})
    hs = res.emitted['H']
    n = common.quick(2500, 20000)
    if len(hs) > n:
        hs = r.sample(hs, n)
    traces = []
    for h in hs:
        n = h[0]['k']
        qs = [{'t': t, 'a': a} for t in ('dfs', 'bfs', 'udfs', 'ubfs') for a in range(1, n + 1)]
        r.shuffle(qs)
        ops = h + [{'t': 'topo'}, {'t': 'comps'}, {'t': 'weak'}] + qs[:4]
        traces.append(chk.record(drv_graph.Driver, {'m': 'all'}, ops))
    chk.compare('TR_Graph', traces, label='graph queries')
    traces = []
    for k in range(common.quick(800, 8000)):
        n = r.randint(4, 20)
        traces.append(chk.record(drv_graph.Driver, {'m': 'random'}, lambda d, k: op(r, d, k) if k < n else None))
    chk.compare('TR_Graph', traces, label='graph histories')
    chk.assumptions += ['edges connect nodes of the graph they are added to',
                        'whether the empty graph is connected is not specified']
