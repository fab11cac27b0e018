import common
import drv_flow
import gen_flow


def run(chk, mode, extra=()):
    res = chk.explore('MC_FlowRun', env={'TIER': common.TIER, 'MODE': mode})
    ts = res.emitted['T']
    for t in ts:
        t['r'] = drv_flow.expected(t['r'], t['c'])
    chk.replay(ts, drv_flow.Driver, label='flow ' + mode)
    r = common.rng('flow', mode)
    traces = []
    for _ in range(common.quick(400, 4000)):
        c = gen_flow.cfg(r, mode)
        n = r.randint(1, 5)
        traces.append(chk.record(drv_flow.Driver, c,
                                 lambda d, k: gen_flow.op(r, c, mode, k) if k < n else None))
    chk.compare('TR_FlowRun', traces, label='flow ' + mode, outproj=drv_flow.expected)
    chk.assumptions += ['node behaviour is observed through the user hooks of synthetic nodes',
                        'chunk contents are integers that record the processing path']
