"""C27: classifiers."""
import common
import drv_classify
import gen_classify


def run(chk):
    res = chk.explore('MC_Classify', env={'TIER': common.TIER})
    chk.replay(res.emitted['T'], drv_classify.Driver, label="classify")
    r = common.rng("classify")
    traces = []
    for k in range(common.quick(1500, 12000)):
        c = gen_classify.cfg(r)
        g = gen_classify.Gen(r, c)
        n = r.randint(4, 14)
        traces.append(chk.record(drv_classify.Driver, c, lambda d, k: g.op(k, d) if k < n else None))
    chk.compare('TR_Classify', traces, label="classify")
