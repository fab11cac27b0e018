"""C21: online nodes."""
import common
import drv_onlinenode
import gen_onlinenode


def run(chk):
    for mode in ('probe', 'exact'):
        res = chk.explore('MC_OnlineNode', env={'TIER': common.TIER, 'MODE': mode})
        chk.replay(res.emitted['T'], drv_onlinenode.Driver, label='online node ' + mode)
    r = common.rng('onlinenode')
    traces = []
    for k in range(common.quick(1200, 15000)):
        c = gen_onlinenode.cfg(r)
        g = gen_onlinenode.Gen(r, c)
        n = r.randint(4, 14)
        traces.append(chk.record(drv_onlinenode.Driver, c, lambda d, k: g.op(k, d) if k < n else None))
    chk.compare('TR_OnlineNode', traces, label='online node')
    chk.assumptions += ['averages are checked on data for which they are integers, up to rounding']
