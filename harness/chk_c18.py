"""C18: switchboards."""
import common
import drv_switch
import gen_switch


def run(chk):
    for mode in ('lists', 'chan', 'bi'):
        res = chk.explore('MC_Switch', env={'TIER': common.TIER, 'MODE': mode})
        chk.replay(res.emitted['T'], drv_switch.Driver, label='switchboard ' + mode)
    r = common.rng('switch')
    traces = []
    for k in range(common.quick(1500, 15000)):
        c = gen_switch.cfg(r)
        n = r.randint(3, 9)

        def nxt(d, k):
            return {'t': 'new'} if k == 0 else gen_switch.op(r, c) if k < n and d.sb is not None else None
        traces.append(chk.record(drv_switch.Driver, c, nxt))
    chk.compare('TR_Switch', traces, label='switchboard')
    chk.assumptions += ['values are integers, so every conversion and mean is exact']
