"""C23: time frames and delays."""
import common
import drv_delay
import gen_delay


def run(chk):
    res = chk.explore('MC_Delay', env={'TIER': common.TIER})
    chk.replay(res.emitted['T'], drv_delay.Driver, label='delay')
    r = common.rng('delay')
    traces = []
    for k in range(common.quick(1500, 15000)):
        c = gen_delay.cfg(r)
        g = gen_delay.Gen(r, c)
        n = r.randint(3, 20 if c['kind'] == 'slide' else 8)
        traces.append(chk.record(drv_delay.Driver, c, lambda d, k: g.op(k, d) if k < n else None))
    chk.compare('TR_Delay', traces, label='delay')
