"""C29: forking and joining."""
import common
import drv_fork
import gen_fork


def run(chk):
    res = chk.explore('MC_Fork', env={'TIER': common.TIER})
    chk.replay(res.emitted['T'], drv_fork.Driver, label="fork")
    r = common.rng("fork")
    jobs = []
    for k in range(common.quick(500, 4000)):
        c = gen_fork.cfg(r)
        g = gen_fork.Gen(r, c)
        n = r.randint(4, 14)
        jobs.append((c, lambda d, k, g=g, n=n: g.op(k, d) if k < n else None))
    chk.crowd('TR_Fork', drv_fork.Driver, jobs, label="fork")
