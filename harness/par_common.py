"""Recording event histories of the real schedulers under controlled schedules."""
import mdp.parallel as mp
import common
import coop

LOG = []


def log(**kw):
    LOG.append(kw)


class TaskFn(mp.TaskCallable):
    """Answers with its number, the data, and the calls its object has seen."""
    coop = None

    def __init__(self, k):
        self.k = k
        self.n = 0
        self.forked = False

    def fork(self):
        new = TaskFn(self.k)
        new.n = self.n
        new.forked = True
        return new

    def __call__(self, d):
        log(t='start', d=d, k=self.k if self.forked and self.n == 0 else -1)
        if TaskFn.coop is not None:
            for _ in range(TaskFn.coop.rnd.choice([0, 1, 3])):
                TaskFn.coop.yield_()
        self.n += 1
        log(t='end', d=d, k=self.k)
        return [self.k, d]


class Plain(TaskFn):
    """A task callable whose fork is the object itself."""

    def fork(self):
        self.forked = True
        return self

    def __call__(self, d):
        log(t='start', d=d, k=self.k)
        if TaskFn.coop is not None:
            TaskFn.coop.yield_()
        log(t='end', d=d, k=self.k)
        return [self.k, d]


class ProcFn(TaskFn):
    """A task callable for workers: prepared once, then called or forked."""

    def __init__(self, k):
        TaskFn.__init__(self, k)
        self.env = 0

    def setup_environment(self):
        self.env += 1

    def fork(self):
        new = ProcFn(self.k)
        new.n, new.env, new.forked = self.n, self.env, True
        return new

    def __call__(self, d):
        log(t='start', d=d, k=self.k if self.env == 1 and self.n == 0 else -1)
        for _ in range(TaskFn.coop.rnd.choice([0, 1, 3])):
            TaskFn.coop.yield_()
        self.n += 1
        log(t='end', d=d, k=self.k)
        return [self.k, d]


def client(sch, w, script, calls):
    """Perform the calls of one client thread."""
    for t, d, k in script:
        log(t='call', w=w, op=t, d=d, k=k)
        e, v = '', []
        try:
            if t == 'add':
                if k:
                    sch.add_task(d, calls[k])
                else:
                    sch.add_task(d)
            elif t == 'set':
                sch.set_task_callable(calls[k])
            elif t == 'get':
                r = sch.get_results()
                v = [list(x) if isinstance(x, (list, tuple)) else x for x in r]
        except common.Stuck:
            raise
        except SystemExit:
            raise
        except Exception as exc:
            e = type(exc).__name__
        log(t='ret', w=w, e=e, v=v)


def gen_script(r, nclients, maxtasks):
    """Scripts whose task data are distinct; every client ends with get."""
    d = [0]
    out = []
    for w in range(nclients):
        s = []
        for _ in range(r.randint(2, 6)):
            t = r.choice(['add'] * 5 + ['set', 'get'])
            if t == 'add' and d[0] < maxtasks:
                d[0] += 1
                s.append(('add', d[0], r.choice([0, 0, 1, 2, 3])))
            elif t == 'set':
                s.append(('set', 0, r.randint(1, 3)))
            elif t == 'get' and r.random() < .5:
                s.append(('get', 0, 0))
        s.append(('get', 0, 0))
        out.append(s)
    return out


class FailFn(TaskFn):
    """Fails on negative data."""

    def fork(self):
        return FailFn(self.k)

    def __call__(self, d):
        if d < 0:
            raise ValueError('scripted failure')
        return [self.k, d]


def failing(chk, label, c, patched, make):
    """A failing task must not block get_results, nor lose other results."""
    TaskFn.coop = c
    got = []
    s = None
    try:
        with patched:
            s = make()

            def go():
                s.add_task(1, FailFn(1))
                s.add_task(-1)
                s.add_task(2)
                try:
                    got.append(s.get_results())
                except common.Stuck:
                    raise
                except Exception as exc:
                    got.append(type(exc).__name__)
            c.spawn(go, name='client')
            try:
                with common.quiet():
                    c.run()
            except common.Stuck as exc:
                if not got:
                    chk.violation('%s: after a task raised, get_results blocks forever (%s)'
                                  % (label, exc), {'tasks': [1, -1, 2]}, key='failing task blocks get_results')
                    return
    finally:
        TaskFn.coop = None
    if isinstance(got[0], list) and [list(x) for x in got[0]] != [[1, 1], [1, 2]]:
        chk.violation('%s: after a task raised, results are %s' % (label, got[0]), None,
                      key='failing task loses results')
