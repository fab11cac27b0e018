"""C16: layers."""
import common
import drv_layer
import gen_layer


def run(chk):
    for mode in ('run', 'dtype'):
        res = chk.explore('MC_Layer', env={'TIER': common.TIER, 'MODE': mode})
        chk.replay(res.emitted['T'], drv_layer.Driver, label='layer ' + mode)
    r = common.rng('layer')
    traces = []
    for k in range(common.quick(1200, 12000)):
        c = gen_layer.cfg(r)
        n = r.randint(2, 9)

        def nxt(d, k):
            return gen_layer.op(r, c, d) if k < n and (k == 0 or d.layer is not None) else None
        traces.append(chk.record(drv_layer.Driver, c, nxt))
    chk.compare('TR_Layer', traces, label='layer')
    chk.assumptions += ['node behaviour is observed through the user hooks of synthetic nodes',
                        'what remains after a call that failed half way is not specified']
