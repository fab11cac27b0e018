"""Driver binding spec ParFlow to mdp.parallel.ParallelFlow."""
import copy
import pickle

import numpy as np
import mdp
import mdp.parallel as mp
import common


class PNode(mdp.Node):
    """Probe node; see spec ParFlow.  It remembers what it was trained with."""
    forkable = 'no'

    def __init__(self, num, nd):
        self.num, self.nd = num, nd
        self.seen = [[] for _ in range(nd['n'])]
        # a flow node needs to know the dimensions of nodes that are not trained
        dim = None if self.is_trainable() else 1
        super(PNode, self).__init__(input_dim=dim, output_dim=dim)
        if self.is_trainable():
            for _ in range(nd['p0']):
                self.train(np.array([[0.]]), *[0] * nd['args'])
                self.stop_training()
            self.seen = [[] for _ in range(nd['n'])]

    def is_trainable(self):
        return self.nd['k'] in ('par', 'loc', 'mix')

    def is_invertible(self):
        return False

    def _get_train_seq(self):
        return [(self._train, self._stop_training)] * self.nd['n']

    def _note(self, x):
        self.seen[self.get_current_train_phase()].append([common.exact_int(v[0]) for v in x])

    def _train(self, x):
        self._note(x)

    def _stop_training(self):
        pass

    def _execute(self, x):
        if self.nd['k'] == 'col':
            self.seen[0].append([common.exact_int(v[0]) for v in x])
        return 10 * x + self.num


class PNode1(PNode):
    def _train(self, x, label):
        if label != 7:
            raise AssertionError('wrong argument')
        self._note(x)


class ParMixin(object):
    def new_fork(self):
        new = copy.copy(self)
        new.seen = [[] for _ in self.seen]
        return new


class ForkNode(PNode, ParMixin):
    pass


class ForkNode1(PNode1, ParMixin):
    pass


class ColNode(PNode, ParMixin):
    pass


class ParallelForkNode(mp.ParallelExtensionNode, ForkNode):
    def _fork(self):
        if self.nd['k'] == 'mix' and self.get_current_train_phase() > 0:
            raise mp.NotForkableParallelException('not in this phase')
        return self.new_fork()

    def _join(self, other):
        for a, b in zip(self.seen, other.seen):
            a += b


class ParallelForkNode1(mp.ParallelExtensionNode, ForkNode1):
    def _fork(self):
        return self.new_fork()

    def _join(self, other):
        for a, b in zip(self.seen, other.seen):
            a += b


class ParallelColNode(mp.ParallelExtensionNode, ColNode):
    def _fork(self):
        return self.new_fork()

    def _join(self, other):
        for a, b in zip(self.seen, other.seen):
            a += b

    @staticmethod
    def use_execute_fork():
        return True


def make(num, nd):
    if nd['k'] in ('loc', 'nt'):
        return (PNode1 if nd['args'] else PNode)(num, nd)
    if nd['k'] == 'col':
        return ColNode(num, nd)
    return (ForkNode1 if nd['args'] else ForkNode)(num, nd)


class Budget(object):
    def __init__(self, fail):
        self.left = fail

    def tick(self):
        self.left -= 1
        if self.left == 0:
            raise ValueError('scripted failure')


class Seq(mp.Scheduler):
    """The sequential scheduler, with a scripted failure."""

    def __init__(self, budget):
        mp.Scheduler.__init__(self)
        self.budget = budget
        self.down = False

    def add_task(self, data, task_callable=None):
        self.budget.tick()
        mp.Scheduler.add_task(self, data, task_callable)

    def _shutdown(self):
        self.down = True


class Shuf(Seq):
    """Finishes its tasks in another order, when results are asked for."""
    pick = False

    def __init__(self, budget, k=1):
        Seq.__init__(self, budget)
        self.todo = []
        self.k = k

    def _process_task(self, data, task_callable, task_index):
        if self.pick:
            new = not self.todo or self.todo[-1][1] is not task_callable
            c = pickle.dumps(task_callable, -1) if new else None
            self.todo.append((pickle.dumps(data, -1), task_callable, task_index, c))
        else:
            self.todo.append((data, task_callable, task_index, None))
        self._lock.release()

    def get_results(self):
        todo, self.todo = self.todo, []
        out, cached = [], None
        for d, c, i, p in todo:
            if self.pick:
                if p is not None:
                    cached = pickle.loads(p)
                    act = mdp.get_active_extensions()
                    cached.setup_environment()
                    if set(act) != set(mdp.get_active_extensions()):
                        raise AssertionError('environment differs')
                out.append((i, pickle.loads(pickle.dumps(cached.fork()(pickle.loads(d)), -1))))
            else:
                out.append((i, c.fork()(d)))
        if self.k and out:
            k = self.k % len(out)
            out = (out[k:] + out[:k])[::-1]
        for i, r in out:
            self._store_result(r, i)
        return mp.Scheduler.get_results(self)


class Pick(Shuf):
    """Everything crosses a process border."""
    pick = True


def chunk(rows):
    return np.array([[float(v)] for v in rows])


class Driver(object):
    count = 0

    def __init__(self, cfg):
        self.cfg = cfg
        self.nodes = [make(i + 1, nd) for i, nd in enumerate(cfg['nodes'])]
        cls = mp.ParallelCheckpointFlow if cfg['cp'] else mp.ParallelFlow
        self.flow = cls(self.nodes)
        self.plain = set(self.flow.__dict__)
        self.tasks = []
        self.last = None
        self.cps = []
        Driver.count += 1
        self.k = Driver.count

    def data(self, d):
        if d['k'] == 'array':
            return chunk(d['chunks'][0])
        if d['k'] == 'notlist':
            return (x for x in [1])
        out = []
        for i, it in enumerate(d['its']):
            a = self.cfg['nodes'][i]['args'] if i < len(self.cfg['nodes']) else 0
            if it['k'] == 'none':
                out.append(None)
            elif it['k'] == 'nonit':
                out.append(17)
            else:
                items = [(chunk(c), 7) if a else chunk(c) for c in it['chunks']]
                out.append(iter(items) if it['k'] == 'iter' else items)
        return out

    def checkpoints(self, c):
        def one(i, f):
            if f == 'none':
                return None

            def func(node):
                if node is not self.nodes[i]:
                    raise AssertionError('foreign node')
                self.cps.append(i + 1)
                return {'cp%d' % (i + 1): i + 1} if f == 'dict' else None
            return func
        if c['k'] == 'one':
            if c['f'] == 'none':
                return None
            return lambda node: one([k for k, x in enumerate(self.nodes) if x is node][0], c['f'])(node)
        return [one(i, f) for i, f in enumerate(c['fs'])]

    def scheduler(self, op, made):
        self.k += 1
        b = Budget(op['fail'])
        k = op['sch']
        new = {'seq': lambda: Seq(b), 'shuf': lambda: Shuf(b, self.k), 'pick': lambda: Pick(b, self.k)}
        if k in new:
            made.append(new[k]())
            return made[0]
        if k == 'list':
            def gen():
                for i, nd in enumerate(self.nodes):
                    if nd.is_training() or i % 2:
                        made.append(new[['seq', 'shuf', 'pick'][i % 3]]())
                        yield made[-1]
                    else:
                        yield None
            return gen()
        return None

    def do(self, op):
        t = op['t']
        self.cps = []
        f = self.flow
        y, call, made = [], False, []
        if t in ('train', 'setup'):
            args = [self.data(op['data'])] + ([self.checkpoints(op['cps'])] if self.cfg['cp'] else [])
        if t == 'train':
            kw = {}
            s = self.scheduler(op, made)
            if s is not None:
                kw['scheduler'] = s
                if self.k % 3 == 0:
                    kw['overwrite_result_container'] = False
            fn = lambda: f.train(*args, **kw)
        elif t == 'setup':
            fn = lambda: f.setup_parallel_training(*args)
        elif t in ('execute', 'setupx'):
            d = op['data']
            items = [chunk(c) for c in d['chunks']]
            x = items[0] if d['k'] == 'array' else iter(items) if d['k'] == 'iter' else items
            kw = {} if op['nr'] == -1 else {'nodenr': op['nr']}
            if t == 'setupx':
                fn = lambda: f.setup_parallel_execution(x, **kw)
            else:
                s = self.scheduler(op, made)
                if s is not None:
                    kw['scheduler'] = s
                    if self.k % 3 == 0:
                        kw['overwrite_result_container'] = False
                fn = lambda: f.execute(x, **kw)
        elif t == 'get':
            fn = f.get_task
        elif t == 'use':
            fn = lambda: f.use_results(self.run(op['ord']))
        none = self.expect_error(op) if t in ('train', 'setup', 'use') else False
        if t in ('train', 'execute'):
            k, v = common.outcome(fn)
        else:
            with mdp.extension('parallel'):
                k, v = common.outcome(fn)
        if mdp.get_active_extensions():
            raise AssertionError('extension left active')
        if k == 'exc':
            e = type(v).__name__
        else:
            e = ''
            if t == 'get':
                d = v[0][0] if isinstance(v[0], tuple) else v[0]
                y = [[common.exact_int(r[0]) for r in d]]
                call = v[1] is not None
                if call:
                    self.last = v[1]
                self.tasks.append((v[0], self.last))
            elif v is not None:
                y = [common.exact_int(r[0]) for r in v]
        if t in ('train', 'setup', 'use') and e == 'TypeError' and none:
            e = 'error'
        if t not in ('get',) and e not in ('ParallelFlowException',):
            self.tasks = []
        if t == 'train' and op['sch'] == 'list' and any(not s.down for s in made):
            e = 'scheduler left running'
        if t == 'train' and op['sch'] not in ('list', 'plain') and made[0].down:
            e = 'foreign scheduler shut down'
        return {'e': e, 'y': y, 'call': call, 'cp': self.cps}

    noneits = False

    def expect_error(self, op):
        """None given for a node that has to be trained: any error will do."""
        if op['t'] == 'use' or self.flow.is_parallel_training:
            return self.noneits and op['t'] == 'use'
        if op['t'] != 'use':
            d = op['data']
            self.noneits = d['k'] == 'list' and any(
                i['k'] == 'none' and j < len(self.nodes) and self.nodes[j].is_training()
                for j, i in enumerate(d['its']))
        return self.noneits

    def run(self, order):
        """Run the tasks handed out, as a scheduler would."""
        idx = list(range(len(self.tasks)))
        if order == 1:
            idx.reverse()
        elif order == 2:
            idx = idx[1:] + idx[:1]
        res = []
        for i in idx:
            d, c = self.tasks[i]
            if order == 2:
                c = pickle.loads(pickle.dumps(c, -1))
            r = c.fork()(d)
            if order == 2:
                r = pickle.loads(pickle.dumps(r, -1))
            res.append((i, r))
        self.tasks = []
        if order == 0:
            return [r for _, r in res]
        cont = mp.TrainResultContainer() if self.flow.is_parallel_training else mp.ExecuteResultContainer()
        for i, r in res:
            cont.add_result(r, i)
        out = cont.get_results()
        return out

    def obs(self):
        f = self.flow
        return {'ns': [{'phase': n.get_current_train_phase(), 'training': n.is_training(),
                        'seen': [sorted(p) for p in n.seen]} for n in self.nodes],
                'mode': 'train' if f.is_parallel_training else 'exec' if f.is_parallel_executing else 'idle',
                'avail': f.task_available,
                'attrs': sorted(v for k, v in f.__dict__.items() if k not in self.plain),
                'same': len(f) == len(self.nodes) and all(a is b for a, b in zip(f, self.nodes))}

    def proj(self, s):
        return {'ns': [{'phase': n['phase'], 'training': n['training'],
                        'seen': [sorted(p) for p in n['seen']]} for n in s['ns']],
                'mode': s['mode'], 'avail': bool(s['avail']), 'attrs': sorted(s['attrs']), 'same': True}
