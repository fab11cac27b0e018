"""C25: copies and saved objects."""
import common
import drv_copies
import gen_copies


def run(chk):
    res = chk.explore('MC_Copies', env={'TIER': common.TIER})
    chk.replay(res.emitted['T'], drv_copies.Driver, label='copies')
    r = common.rng('copies')
    jobs = []
    for c in gen_copies.cfgs():
        for k in range(common.quick(14, 120)):
            g = gen_copies.Gen(r, c)
            n = r.randint(5, 10)
            jobs.append((c, lambda d, k, g=g, n=n: g.op(k, d) if k < n else None))
    r.shuffle(jobs)
    chk.crowd('TR_Copies', drv_copies.Driver, jobs, label='copies')
