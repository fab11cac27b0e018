"""C26: expansions."""
import common
import drv_expand
import gen_expand


def run(chk):
    res = chk.explore('MC_Expand', env={'TIER': common.TIER})
    chk.replay(res.emitted['T'], drv_expand.Driver, label='expand')
    r = common.rng('expand')
    traces = []
    for k in range(common.quick(1000, 8000)):
        c = gen_expand.cfg(r)
        g = gen_expand.Gen(r, c)
        n = r.randint(2, 7)
        traces.append(chk.record(drv_expand.Driver, c, lambda d, k: g.op(k, d) if k < n else None))
    chk.compare('TR_Expand', traces, label='expand')
