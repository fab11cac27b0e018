"""Random configurations and histories for spec ParFlow."""
import gen_flow


def N(k, n=1, p0=0, a=0):
    return dict(k=k, n=n, p0=p0, args=a)


KINDS = [N('par'), N('par', 2), N('par', 3), N('par', 3, 1), N('par', 2, 2), N('par', 1, 0, 1), N('par', 2, 0, 1),
         N('loc'), N('loc', 2), N('loc', 2, 1), N('loc', 2, 0, 1), N('mix', 2), N('mix', 3), N('nt'), N('col')]
XKINDS = [N('par', 1, 1), N('nt'), N('nt'), N('col'), N('col')]


def cfg(r, mode):
    n = r.choice([1, 2, 3, 3, 4, 5])
    return {'nodes': [r.choice(XKINDS if mode == 'exec' else KINDS) for _ in range(n)], 'cp': mode == 'cp'}


def rows(r):
    return [r.randint(1, 9) for _ in range(r.randint(1, 3))]


def chunks(r, lo=1, hi=4):
    return [rows(r) for _ in range(r.randint(lo, hi))]


def data(r, c):
    x = r.random()
    if x < .05 and not any(n['args'] for n in c['nodes']):
        return {'k': 'array', 'chunks': [rows(r)]}
    if x < .07:
        return {'k': 'notlist'}
    its = []
    for nd in c['nodes']:
        tr = nd['k'] in ('par', 'loc', 'mix')
        y = r.random()
        if y < .03:
            its.append({'k': r.choice(['none', 'nonit']), 'chunks': []})
        elif not tr and y < .8 or tr and nd['p0'] == nd['n'] and y < .4:
            its.append({'k': 'none', 'chunks': []})
        elif y < .85:
            its.append({'k': 'list', 'chunks': chunks(r)})
        elif y < .88:
            its.append({'k': 'list', 'chunks': []})
        else:
            its.append({'k': 'iter' if nd['n'] - nd['p0'] == 1 or y > .98 else 'list', 'chunks': chunks(r)})
    if r.random() < .02:
        its = its[1:]
    return {'k': 'list', 'its': its}


def cps(r, c):
    fs = ['none', 'nil', 'dict']
    if not c['cp']:
        return {'k': 'one', 'f': 'none'}
    if r.random() < .4:
        return {'k': 'one', 'f': r.choice(fs)}
    return {'k': 'list', 'fs': [r.choice(fs) for _ in range(len(c['nodes']) + (r.random() < .05))]}


def xdata(r):
    k = r.choice(['array', 'list', 'list', 'iter'])
    return {'k': k, 'chunks': chunks(r, 1, 1) if k == 'array' else chunks(r, r.choice([0, 1, 1, 1]), 5)}


def op(r, c, mode, drv):
    f = drv.flow
    idle = not f.is_parallel_training and not f.is_parallel_executing
    trained = not any(n.is_training() for n in drv.nodes)
    nr = lambda: r.choice([-1, -1] + list(range(len(c['nodes']))))
    fail = r.randint(1, 9) if r.random() < .25 else 0
    ex = lambda z: {'t': 'execute', 'data': xdata(r), 'nr': nr(), 'fail': 0 if z == 'plain' else fail, 'sch': z}
    if idle:
        z = r.choice(['seq', 'shuf', 'pick', 'list'])
        x = r.random()
        if trained and (mode == 'exec' or x < .5):
            if x < .03:
                return {'t': 'get'}
            if r.random() < .5:
                return {'t': 'setupx', 'data': xdata(r), 'nr': nr()}
            return ex(r.choice(['seq', 'shuf', 'pick', 'plain']))
        if x < .55:
            return {'t': 'setup', 'data': data(r, c), 'cps': cps(r, c)}
        return {'t': 'train', 'data': data(r, c), 'cps': cps(r, c), 'fail': fail, 'sch': z}
    x = r.random()
    if x < .06 and f.is_parallel_training:
        return r.choice([{'t': 'setup', 'data': data(r, c), 'cps': cps(r, c)},
                         {'t': 'train', 'data': data(r, c), 'cps': cps(r, c), 'fail': 0, 'sch': 'seq'},
                         ex('seq'), ex('plain'), {'t': 'setupx', 'data': xdata(r), 'nr': -1}])
    if f.task_available:
        return {'t': 'get'}
    return {'t': 'get'} if x < .1 else {'t': 'use', 'ord': r.randrange(3)}
