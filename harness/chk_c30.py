"""C30: nodes that analyse or filter."""
import common
import drv_analyse
import gen_analyse


def run(chk):
    res = chk.explore('MC_Analyse', env={'TIER': common.TIER})
    chk.replay(res.emitted['T'], drv_analyse.Driver, label='analyse')
    r = common.rng('analyse')
    traces = []
    for k in range(common.quick(1500, 12000)):
        c = gen_analyse.cfg(r)
        g = gen_analyse.Gen(r, c)
        n = r.randint(4, 14)
        traces.append(chk.record(drv_analyse.Driver, c, lambda d, k: g.op(k, d) if k < n else None))
    chk.compare('TR_Analyse', traces, label='analyse')
