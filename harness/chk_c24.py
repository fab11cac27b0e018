"""C24: covariance accumulators."""
import common
import drv_cov
import gen_cov


def run(chk):
    res = chk.explore('MC_Cov', env={'TIER': common.TIER})
    chk.replay(res.emitted['T'], drv_cov.Driver, label='cov')
    r = common.rng('cov')
    traces = []
    for k in range(common.quick(1500, 12000)):
        c = gen_cov.cfg(r)
        g = gen_cov.Gen(r, c)
        n = r.randint(4, 14)
        traces.append(chk.record(drv_cov.Driver, c, lambda d, k: g.op(k, d) if k < n else None))
    chk.compare('TR_Cov', traces, label='cov')
