"""C14: bi-flows."""
import common
import drv_biflow
import gen_biflow


def run(chk):
    for mode in ('jump', 'chunks', 'train', 'phases'):
        res = chk.explore('MC_BiFlow', env={'TIER': common.TIER, 'MODE': mode})
        chk.replay(res.emitted['T'], drv_biflow.Driver, label='bi-flow ' + mode)
    r = common.rng('biflow')
    traces = []
    for k in range(common.quick(1200, 15000)):
        c = gen_biflow.cfg(r, k % 5 == 0)
        n = r.randint(2, 8)
        traces.append(chk.record(drv_biflow.Driver, c, lambda d, k: gen_biflow.op(r, c) if k < n else None))
    chk.compare('TR_BiFlow', traces, label='bi-flow')
    chk.assumptions += ['data rows are integers which record the nodes passed, node behaviour is scripted']
