"""C17: flow nodes."""
import common
import drv_flownode
import gen_flownode


def run(chk):
    for mode in ('run', 'dims', 'dtype'):
        res = chk.explore('MC_FlowNode', env={'TIER': common.TIER, 'MODE': mode})
        chk.replay(res.emitted['T'], drv_flownode.Driver, label='flow node ' + mode)
    r = common.rng('flownode')
    traces = []
    for k in range(common.quick(1200, 12000)):
        c = gen_flownode.cfg(r)
        n = r.randint(3, 12)

        def nxt(d, k):
            return gen_flownode.op(r, c, d) if k < n and (k == 0 or d.fn is not None) else None
        traces.append(chk.record(drv_flownode.Driver, c, nxt))
    chk.compare('TR_FlowNode', traces, label='flow node')
    chk.assumptions += ['node behaviour is observed through the user hooks of synthetic nodes',
                        'what remains after a call that failed half way is not specified']
