import common
import drv_parflow
import gen_parflow


def run(chk, mode):
    res = chk.explore('MC_ParFlow', env={'TIER': common.TIER, 'MODE': mode})
    chk.replay(res.emitted['T'], drv_parflow.Driver, label='parallel flow ' + mode)
    r = common.rng('parflow', mode)
    traces = []
    for _ in range(common.quick(300 if mode != 'cp' else 150, 4000)):
        c = gen_parflow.cfg(r, mode)
        n = r.randint(3, 24)
        traces.append(chk.record(drv_parflow.Driver, c,
                                 lambda d, k: gen_parflow.op(r, c, mode, d) if k < n else None))
    chk.compare('TR_ParFlow', traces, label='parallel flow ' + mode)
