"""Random configurations and histories for spec FlowRun (larger than the
exhaustive exploration)."""
import common

KINDS = {'nt': dict(tr=False, n=1, args=0, inv=True, pre=False),
         'ni': dict(tr=False, n=1, args=0, inv=False, pre=False),
         'p1': dict(tr=True, n=1, args=0, inv=True, pre=False),
         'p2': dict(tr=True, n=2, args=0, inv=True, pre=False),
         'p3': dict(tr=True, n=3, args=0, inv=True, pre=False),
         'a1': dict(tr=True, n=1, args=1, inv=True, pre=False),
         'a2': dict(tr=True, n=2, args=2, inv=True, pre=False),
         'pre': dict(tr=True, n=2, args=0, inv=True, pre=True)}


def cfg(r, mode):
    n = r.choice([1, 2, 3, 3, 4, 5])
    ks = ['nt', 'p1', 'p2', 'p3', 'a1', 'a2', 'pre'] + (['ni'] if mode != 'train' else [])
    return {'nodes': [KINDS[r.choice(ks)] for _ in range(n)], 'cp': mode == 'cp',
            'cr': r.choice(['no', 'auto', 'name']) if mode == 'crash' else 'no'}


def chunk(r, args=0, bad=False):
    return {'rows': [r.randint(1, 9) for _ in range(r.randint(1, 3))], 'args': args, 'bad': bad}


def it(r, nd, noise):
    if not nd['tr'] or nd['pre']:
        if r.random() < .7:
            return {'k': 'none', 'chunks': []}
    if r.random() < noise:
        return r.choice([{'k': 'none', 'chunks': []}, {'k': 'nonit', 'chunks': []},
                         {'k': 'list', 'chunks': []},
                         {'k': 'list', 'chunks': [chunk(r, r.randint(0, 2), r.random() < .3)
                                                  for _ in range(r.randint(1, 3))]}])
    k = 'iter' if nd['n'] == 1 and r.random() < .5 or r.random() < noise / 2 else 'list'
    return {'k': k, 'chunks': [chunk(r, nd['args']) for _ in range(r.randint(1, 4))]}


def op(r, c, mode, k):
    n = len(c['nodes'])
    t = 'train' if k == 0 else r.choice({'train': ['train', 'train', 'execute'],
                                         'run': ['execute', 'execute', 'inverse', 'train'],
                                         'cp': ['train', 'train', 'execute'],
                                         'crash': ['train', 'execute', 'inverse']}[mode])
    if mode == 'run' and k == 0 and r.random() < .3:
        t = 'execute'
    fail = r.randint(1, 25) if r.random() < (.6 if mode == 'crash' else .2) else 0
    if t == 'train':
        x = r.random()
        if x < .08:
            data = {'k': 'array', 'chunks': [chunk(r)]}
        elif x < .1:
            data = {'k': 'notlist', 'chunks': []}
        else:
            noise = r.choice([0, 0, .15])
            data = {'k': 'list', 'its': [it(r, nd, noise) for nd in c['nodes']]}
            if r.random() < .03:
                data['its'] = data['its'][1:]
        cps = {'k': 'one', 'f': 'none'}
        if mode == 'cp':
            fs = ['none', 'nil', 'dict', 'stop']
            cps = {'k': 'one', 'f': r.choice(fs)} if r.random() < .3 else \
                {'k': 'list', 'fs': [r.choice(fs) for _ in range(n + (r.random() < .05))]}
        return {'t': 'train', 'data': data, 'cps': cps, 'fail': fail}
    k = r.choice(['array', 'list', 'iter'])
    m = 1 if k == 'array' else r.choice([0, 1, 2, 3, 4])
    return {'t': t, 'data': {'k': k, 'chunks': [chunk(r, 0, r.random() < .05) for _ in range(m)]},
            'nr': -1 if t == 'inverse' or r.random() < .6 else r.randrange(n), 'fail': fail}
