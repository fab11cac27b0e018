"""C11: the process scheduler."""
import os
import signal
import subprocess
import sys
import threading
import time

import mdp.parallel as mp
import mdp.parallel.scheduling as scheduling
import mdp.parallel.process_schedule as process_schedule
import common
import coop
import par_common as pc
import proc_common


def history(r, chk):
    limit = r.choice([1, 1, 2, 2, 3, 4])
    clients = r.choice([1, 1, 1, 2])
    scripts = pc.gen_script(r, clients, 7)
    cache = r.random() < .7
    calls = [None] + [pc.ProcFn(k) for k in (1, 2, 3)]
    c = coop.Coop(r, [scheduling.__file__, process_schedule.__file__],
                  opcodes=r.random() < .3, p=r.choice([.02, .1, .3, .6]))
    c.failstart = r.choice([0, 0, 1, 3])
    pc.LOG.clear()
    pc.TaskFn.coop = c
    tr = {'limit': limit, 'cache': cache, 'scripts': scripts}
    started = []
    fsys = proc_common.FakeSys()
    fsub = proc_common.fake_subprocess(c, fsys, process_schedule, started)
    try:
        with coop.Patched(c, [scheduling, process_schedule], subprocess=fsub, sys=fsys):
            kw = {} if limit == 1 and r.random() < .5 else {'n_processes': limit}
            if not cache:
                kw['cache_callable'] = False
            s = mp.ProcessScheduler(source_paths=[], **kw)
            cs = [c.spawn(pc.client, (s, w, sc, calls), name='client %d' % w)
                  for w, sc in enumerate(scripts, 1)]

            def end():
                c.yield_(lambda: all(t.state == 'done' for t in cs))
                s.shutdown()
            c.spawn(end, name='shutdown')
            try:
                excs = c.run()
            except common.Stuck as exc:
                tr['ev'] = [dict(e) for e in pc.LOG]
                chk.violation('process scheduler: %s' % exc, {'trace': tr})
                return None
    finally:
        pc.TaskFn.coop = None
    ev = [dict(e) for e in pc.LOG]
    tr['ev'] = ev
    if excs:
        chk.violation('process scheduler: a thread died: %r' % excs[0], {'trace': tr})
        return None
    if len(started) != limit:
        chk.violation('process scheduler: %d workers started instead of %d'
                      % (len(started), limit), {'trace': tr})
    if s.n_open_tasks != 0 or s.task_counter != sum(1 for e in ev if e['t'] == 'start'):
        chk.violation('process scheduler: %d tasks open, %d counted after the end'
                      % (s.n_open_tasks, s.task_counter), {'trace': tr})
    if any(x.n or x.env or x.forked for x in calls[1:]):
        chk.violation('process scheduler: the original callable was called', {'trace': tr})
    return tr


class RealFn(mp.TaskCallable):
    """Runs in real worker processes."""

    def __init__(self, k):
        self.k, self.n, self.env, self.seen = k, 0, 0, 0

    def setup_environment(self):
        self.env += 1

    def fork(self):
        new = RealFn(self.k)
        new.env = self.env
        return new

    def __call__(self, d):
        self.n += 1
        time.sleep(.002 * (d % 3))
        return [self.k, d, self.n, self.env, os.getpid()]


def free_running(chk, r, cache, n):
    """A batch with real processes."""
    import chk_c11     # picklable under its importable name
    started = []
    real_popen = subprocess.Popen

    class Rec(real_popen):
        def __init__(self, *a, **kw):
            real_popen.__init__(self, *a, **kw)
            if kw.get('stdin') == subprocess.PIPE:
                started.append(self)
    subprocess.Popen = Rec
    old = os.environ.get('PYTHONPATH')
    os.environ['PYTHONPATH'] = os.pathsep.join(p for p in sys.path if p)
    bad = lambda what: chk.violation('real process scheduler (cache %s, %d workers): %s'
                                     % (cache, n, what), {'cache': cache, 'n': n})
    try:
        with common.limit(100, 'real process scheduler'):
            s = mp.ProcessScheduler(n_processes=n, cache_callable=cache)
            for batch in range(3):
                want, k = [], 0
                for d in range(common.quick(12, 60)):
                    if k == 0 or r.random() < .4:
                        k = r.choice([1, 2, 3])
                        if r.random() < .5:
                            s.set_task_callable(chk_c11.RealFn(k))
                            s.add_task(d)
                        else:
                            s.add_task(d, chk_c11.RealFn(k))
                    else:
                        s.add_task(d)
                    want.append([k, d, 1, 1])
                res = s.get_results()
                if [x[:4] for x in res] != want:
                    bad('results %s instead of %s' % (res, want))
                if not set(x[4] for x in res) <= set(p.pid for p in started):
                    bad('tasks ran outside the workers')
                chk.traces += 1
                chk.steps += len(want)
            s.shutdown()
            end = time.time() + 20
            while any(p.poll() is None for p in started) and time.time() < end:
                time.sleep(.02)
            if any(p.poll() is None for p in started):
                bad('workers survive shutdown')
            if len(started) != n:
                bad('%d workers started' % len(started))
    except common.Stuck as exc:
        bad(str(exc))
    except Exception as exc:
        bad(repr(exc))
    finally:
        if old is None:
            del os.environ['PYTHONPATH']
        else:
            os.environ['PYTHONPATH'] = old
        subprocess.Popen = real_popen
        for p in started:
            if p.poll() is None:
                p.kill()
            p.wait()
            p.stdin.close()
            p.stdout.close()


def run(chk):
    model = [('s1', '2', '1'), ('s3', '1', '1'), ('s2', '1', '0')]
    if common.THOROUGH:
        model = [(s, l, c) for s in ('s1', 's2', 's3', 's4') for l in '12' for c in '01']
    res = {}
    sem = threading.Semaphore(3)

    def mc(m):
        with sem:
            res[m] = common.run_tlc('MC_ProcImpl', 'MC_ProcImpl.cfg', workers=2, timeout=3000,
                                    env={'SCRIPT': m[0], 'LIMIT': m[1], 'CACHE': m[2], 'DEFECT': ''})
    ths = [threading.Thread(target=mc, args=(m,)) for m in model]
    for t in ths:
        t.start()
    r = common.rng('processes')
    for cache, n in common.quick([(True, 2), (False, 2)],
                                 [(True, 1), (True, 2), (False, 2), (True, 4)]):
        free_running(chk, r, cache, n)
    traces = []
    for _ in range(common.quick(220, 5000)):
        t = history(r, chk)
        if t:
            traces.append(t)
        if len(chk.viol) > 5:
            break
    c = coop.Coop(r, [scheduling.__file__, process_schedule.__file__], p=.1, maxswitch=2000)
    fsys = proc_common.FakeSys()
    fsub = proc_common.fake_subprocess(c, fsys, process_schedule, [])
    pc.failing(chk, 'process scheduler', c,
               coop.Patched(c, [scheduling, process_schedule], subprocess=fsub, sys=fsys),
               lambda: mp.ProcessScheduler(n_processes=2, source_paths=[]))
    for t in ths:
        t.join()
    for m in model:
        if m not in res or res[m].error or not res[m].completed:
            raise common.Machinery('ProcImpl %s: %s' % (m, common.tlc_tail(res[m]) if m in res else ''))
        chk.add_tlc(res[m])
        chk.notes.append('TLC ProcImpl %s: refines SchedPar, workers exclusive, cache right, finishes; %d states' % (m, res[m].distinct))
    if traces:
        chk.accept('TR_SchedPar', traces, label='process scheduler')
