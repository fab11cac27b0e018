"""Random configurations and operations for spec BiNode."""
R = ['none', 'x', 'xm', 'nm', 'xmt', 'nmt']


def ret(r):
    f = r.choice(R)
    return {'f': f, 'm': r.choice(['none', 'empty', 'c', 'got', 'got']) if f not in ('none', 'x') else 'none',
            't': r.choice(['1', '-1', '2', 'id', 'exit']) if len(f) == 3 else ''}


def meth(r, nil=.3):
    if r.random() < nil:
        return {'a': 'no', 'b': 'no', 'msg': False, 'r': {'f': 'none', 'm': 'none', 't': ''}}
    return {'a': r.choice(['no', 'req', 'opt', 'opt']), 'b': r.choice(['no', 'no', 'req', 'opt']),
            'msg': r.random() < .4, 'r': ret(r)}


def cfg(r):
    return {'id': r.random() < .8, 'n': r.choice([0, 1, 1, 2, 2]), 'inv': r.random() < .7,
            'sr': r.choice(['no', 'no', 'yes']), 'co': r.choice([0, 0, 0, 1, 2, 3]),
            'cot': r.choice(['', 'id', '-1']), 'cor': r.choice(['none', 'x', 'xm']),
            'm': {'execute': meth(r, 0), 'inverse': meth(r, 0), 'other': meth(r, .1), 'train': meth(r, .5),
                  'train2': meth(r, .5), 'stop': meth(r, .5), 'stop2': meth(r, .5)}}


def msg(r):
    m = {'k': r.random() < .85, 'a': 0, 'b': 0, 'c': 0, 'x': 0, 'Na': 0, 'Nb': 0, 'Nc': 0, 'Ma': 0,
         'tgt': '', 'Ntgt': '', 'meth': '', 'Nmeth': ''}
    if m['k']:
        p = r.choice([.1, .4, .7])
        for i, k in enumerate(('a', 'b', 'c', 'Na', 'Nb', 'Nc', 'Ma')):
            if r.random() < p:
                m[k] = i + 1
        if r.random() < .15:
            m['x'] = 9
        for k in ('tgt', 'Ntgt'):
            if r.random() < .25:
                m[k] = r.choice(['1', '-1', '2', 'id', 'exit'])
        for k in ('meth', 'Nmeth'):
            if r.random() < .2:
                m[k] = r.choice(['execute', 'inverse', 'train', 'other', 'other', 'nosuch'])
    return m


def op(r, c):
    t = r.choice(['execute', 'execute', 'train', 'train', 'train', 'stop', 'stop', 'reset'])
    m = msg(r)
    if t == 'reset':
        m = dict((k, '' if isinstance(v, str) else False if k == 'k' else 0) for k, v in m.items())
    return {'t': t, 'x': '' if t in ('stop', 'reset') else r.choice(['x', 'x', 'x', 'x', '', 'bad']), 'm': m}
