"""C10: the thread scheduler."""
import threading

import mdp.parallel as mp
import mdp.parallel.scheduling as scheduling
import mdp.parallel.thread_schedule as thread_schedule
import common
import coop
import par_common as pc


def history(r, chk):
    limit = r.choice([1, 1, 2, 2, 3, 4])
    clients = r.choice([1, 1, 1, 2])
    scripts = pc.gen_script(r, clients, 7)
    copy = r.random() < .7
    cls = pc.TaskFn if r.random() < .7 else pc.Plain
    calls = [None] + [cls(k) for k in (1, 2, 3)]
    c = coop.Coop(r, [scheduling.__file__, thread_schedule.__file__],
                  opcodes=r.random() < .6, p=r.choice([.02, .1, .3, .6]))
    c.failstart = r.choice([0, 0, 1, 3])
    pc.LOG.clear()
    pc.TaskFn.coop = c
    tr = {'limit': limit, 'copy': copy, 'scripts': scripts}
    try:
        with coop.Patched(c, [scheduling, thread_schedule]):
            kw = {} if limit == 1 and r.random() < .5 else {'n_threads': limit}
            if copy is False:
                kw['copy_callable'] = False
            s = mp.ThreadScheduler(**kw)
            for w, sc in enumerate(scripts, 1):
                c.spawn(pc.client, (s, w, sc, calls), name='client %d' % w)
            try:
                excs = c.run()
            except common.Stuck as exc:
                tr['ev'] = [dict(e) for e in pc.LOG]
                chk.violation('thread scheduler: %s' % exc, {'trace': tr})
                return None
            s.shutdown()
    finally:
        pc.TaskFn.coop = None
    ev = [dict(e) for e in pc.LOG]
    tr['ev'] = ev
    if excs:
        chk.violation('thread scheduler: a thread died: %r' % excs[0], {'trace': tr})
        return None
    if s.n_open_tasks != 0 or s.task_counter != sum(1 for e in ev if e['t'] == 'start'):
        chk.violation('thread scheduler: %d tasks open, %d counted after the end'
                      % (s.n_open_tasks, s.task_counter), {'trace': tr})
    # no thread may have changed the callables handed in
    if cls is pc.TaskFn and any(x.n or x.forked for x in calls[1:]):
        chk.violation('thread scheduler: the original callable was called', {'trace': tr})
    return tr


def run(chk):
    model = [('s1', '2', ''), ('s2', '1', ''), ('s3', '1', '')]
    if common.THOROUGH:
        model = [(s, l, '') for s in ('s1', 's2', 's3') for l in '123'] + [('s4', '1', ''), ('s4', '2', '')]
    res = {}

    def mc(m):
        res[m] = common.run_tlc('MC_ThreadImpl', 'MC_ThreadImpl.cfg', workers=2, timeout=3000,
                                env={'SCRIPT': m[0], 'LIMIT': m[1], 'DEFECT': m[2]})
    ths = [threading.Thread(target=mc, args=(m,)) for m in model]
    for t in ths:
        t.start()
    r = common.rng('threads')
    traces = []
    for _ in range(common.quick(350, 6000)):
        t = history(r, chk)
        if t:
            traces.append(t)
        if len(chk.viol) > 5:
            break
    c = coop.Coop(r, [scheduling.__file__, thread_schedule.__file__], p=.1, maxswitch=2000)
    pc.failing(chk, 'thread scheduler', c, coop.Patched(c, [scheduling, thread_schedule]),
               lambda: mp.ThreadScheduler(n_threads=2))
    for t in ths:
        t.join()
    for m in model:
        if m not in res or res[m].error or not res[m].completed:
            raise common.Machinery('ThreadImpl %s: %s' % (m, common.tlc_tail(res[m]) if m in res else ''))
        chk.add_tlc(res[m])
        chk.notes.append('TLC ThreadImpl %s: refines SchedPar, bounded, finishes; %d states' % (m, res[m].distinct))
    if traces:
        chk.accept('TR_SchedPar', traces, label='thread scheduler')
