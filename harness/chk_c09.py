"""C09: the sequential scheduler."""
import mdp.parallel as mp
import common


class Base(object):
    def __init__(self, c):
        self.c = c
        self.n = 0

    def answer(self, d):
        self.n += 1
        if d < 0:
            raise ValueError('task')
        return [self.c, d, self.n]


class SelfCallable(Base, mp.TaskCallable):
    def __call__(self, d):
        return self.answer(d)


class ForkCallable(SelfCallable):
    def fork(self):
        if self.n:
            raise RuntimeError('the callable itself was called')
        new = ForkCallable(self.c)
        new.fork = None         # a fork is not forked again
        return new

    def setup_environment(self):
        raise RuntimeError('only for another environment')


class BadForkCallable(SelfCallable):
    def fork(self):
        raise KeyError('fork')


class OwnContainer(mp.ResultContainer):
    def __init__(self):
        self.r = []

    def add_result(self, result, task_index):
        self.r.append((result, task_index))

    def get_results(self):
        idx = [i for _, i in self.r]
        r, self.r = [v for v, _ in self.r], []
        return r if all(isinstance(i, int) for i in idx) else 'bad index'


class CountingScheduler(mp.Scheduler):
    ends = 0

    def _shutdown(self):
        self.ends += 1


def make(c, kind):
    if kind == 'fn':
        b = Base(c)
        return lambda d: b.answer(d)
    return {'self': SelfCallable, 'fork': ForkCallable, 'badfork': BadForkCallable}[kind](c)


class Driver(object):
    def __init__(self, cfg):
        box = {'ordered': mp.OrderedResultContainer, 'list': mp.ListResultContainer,
               'own': OwnContainer}[cfg['box']]()
        if cfg['box'] == 'ordered' and len(cfg['kind']) == 2:
            self.s = CountingScheduler(verbose=cfg['verbose'])
            if type(self.s.result_container) is not mp.OrderedResultContainer:
                raise common.Stuck('the default result container changed')
        else:
            self.s = CountingScheduler(result_container=box, verbose=cfg['verbose'])
        self.calls = [None] + [make(c, k) for c, k in enumerate(cfg['kind'], 1)]

    def apply(self, op):
        t, s = op['t'], self.s
        if t == 'add':
            if op['c']:
                return s.add_task(op['d'], self.calls[op['c']])
            return s.add_task(op['d'])
        if t == 'set':
            return s.set_task_callable(self.calls[op['c']])
        if t == 'get':
            return s.get_results()
        if t == 'shutdown':
            return s.shutdown()
        if t == 'with':
            with s as r:
                if r is not s:
                    return ['another scheduler']
                if op['x']:
                    raise KeyError('body')
            return None
        if t == 'put':
            s.result_container.add_result([0, op['d'], 0], op['n'])

    def do(self, op):
        with common.limit(4, '%s' % op), common.quiet():
            k, r = common.outcome(self.apply, op)
        if k == 'exc':
            return {'e': type(r).__name__, 'v': []}
        if r is None:
            r = []
        return {'e': '', 'v': [list(v) for v in r] if isinstance(r, (list, tuple)) else r}

    def obs(self):
        return {'cnt': self.s.task_counter, 'open': self.s.n_open_tasks, 'ends': self.s.ends}

    def proj(self, s):
        return {'cnt': s['cnt'], 'open': 0, 'ends': s['ends']}


def run(chk):
    res = chk.explore('MC_Sched', env={'TIER': common.TIER})
    chk.replay(res.emitted['T'], Driver, label='scheduler')
    r = common.rng('sched')
    traces = []
    for _ in range(common.quick(300, 4000)):
        c = {'kind': [r.choice(['fn', 'self', 'fork', 'badfork']) for _ in range(4)],
             'box': r.choice(['ordered', 'ordered', 'list', 'own']), 'verbose': r.random() < .3}
        ops = []
        for _ in range(30):
            t = r.choice(['add'] * 6 + ['set', 'get', 'shutdown', 'with', 'put'])
            op = {'t': t}
            if t == 'add':
                op.update(c=r.randint(0, 4), d=r.choice([-1, 1, 2, 3, 4]))
            if t == 'set':
                op.update(c=r.choice([0, 1, 2, 3, 4, 4]))
            if t == 'with':
                op.update(x=r.random() < .5)
            if t == 'put':
                op.update(d=r.randint(0, 9), n=r.randint(0, 20))
            ops.append(op)
        traces.append(chk.record(Driver, c, ops))
    chk.compare('TR_Sched', traces, label='scheduler')
