"""C15: messages, methods and targets of bi-nodes."""
import common
import drv_binode
import gen_binode


def run(chk):
    for mode in ('parse', 'route', 'life', 'co'):
        res = chk.explore('MC_BiNode', env={'TIER': common.TIER, 'MODE': mode})
        chk.replay(res.emitted['T'], drv_binode.Driver, label='bi-node ' + mode)
    r = common.rng('binode')
    traces = []
    for _ in range(common.quick(600, 8000)):
        c = gen_binode.cfg(r)
        n = r.randint(3, 20)
        traces.append(chk.record(drv_binode.Driver, c, lambda d, k: gen_binode.op(r, c) if k < n else None))
    chk.compare('TR_BiNode', traces, label='bi-node')
