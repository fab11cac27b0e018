"""C22: online flows."""
import common
import drv_onlineflow
import gen_onlineflow


def run(chk):
    for mode in ('run', 'circ', 'list'):
        res = chk.explore('MC_OnlineFlow', env={'TIER': common.TIER, 'MODE': mode})
        chk.replay(res.emitted['T'], drv_onlineflow.Driver, label='online flow ' + mode)
    r = common.rng('onlineflow')
    traces = []
    for k in range(common.quick(1500, 15000)):
        c = gen_onlineflow.cfg(r)
        g = gen_onlineflow.Gen(r, c)
        n = r.randint(3, 12)
        traces.append(chk.record(drv_onlineflow.Driver, c, lambda d, k: g.op(k, d) if k < n else None))
    chk.compare('TR_OnlineFlow', traces, label='online flow')
    chk.assumptions += ['node computations are integer functions modulo 9973']
