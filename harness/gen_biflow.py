"""Random configurations and operations for spec BiFlow."""
T = ['1', '1', '-1', '2', '-2', '3', '-3', '0', 'exit', 'p', 'q', 'z']


def res(r, fs):
    f = r.choice(fs)
    m = f in ('m', 't', 'z')
    return {'f': f, 'a': r.choice([0, 10, 11, 12]) if f in ('m', 't') else 13 if f == 'z' else 0,
            'r': r.choice([0, 0, 20, 21]) if m else 0, 't': r.choice(T) if f == 't' else ''}


def cfg(r, cp=False):
    nodes = []
    calm = r.random() < .5
    for i in range(r.choice([1, 2, 2, 3, 3, 4])):
        n = r.choice([0, 0, 1, 1, 2])
        if r.random() < .3:
            nodes.append({'k': 'plain', 'id': '', 'n': n, 'ex': [], 'tr': [],
                          'sp': {'f': 'n', 'a': 0, 'r': 0, 't': ''}})
            continue
        fs = ['x', 'm', 'm', 't'] if calm else ['x', 'm', 't', 't', 't', 'z']
        ex = [res(r, fs) for _ in range(r.choice([0, 1, 1, 2, 3]))]
        tr = [res(r, ['n', 'x', 'm', 't', 't']) for _ in range(r.choice([0, 0, 1, 2]))] if n else []
        sp = res(r, ['n', 'n', 'x', 'm', 't', 't']) if n else {'f': 'n', 'a': 0, 'r': 0, 't': ''}
        if calm:
            for q in ex + tr + [sp]:
                if q['t'] not in ('', '1', 'exit', 'p'):
                    q['t'] = '-1' if r.random() < .3 else '1'
        nid = r.choice(['', '', 'p', 'q'])
        for q in ex + tr + [sp] if nid == 'q' else []:
            if q['f'] in ('m', 't') and not q['a']:
                q['a'] = 10
        nodes.append({'k': 'bi', 'id': nid, 'n': n, 'ex': ex, 'tr': tr, 'sp': sp})
    return {'nodes': nodes, 'cp': cp}


def msg(r, p=.6):
    if r.random() > p:
        return {'a': 0, 'r': 0, 'pa': 0}
    return {'a': r.randint(0, 3), 'r': r.choice([0, 4, 5]), 'pa': r.choice([0, 0, 6])}


def rows(r):
    return [r.randint(1, 9) for _ in range(r.choice([1, 1, 2]))]


def op(r, c):
    n = len(c['nodes'])
    u = r.random()
    if u < .08:
        return {'t': r.choice(['get', 'has', 'set', 'del']), 'id': r.choice(['p', 'q', 'z'])}
    if u < .55:
        k = r.choice(['one', 'list', 'list', 'iter'])
        cs = []
        none = r.random() < .15
        ts = r.random() < .25
        p = r.choice([0, .5, .9])
        for _ in range(1 if k == 'one' else r.choice([0, 1, 2, 3])):
            m = msg(r, p)
            if none:
                m['a'] = r.randint(1, 3)
            cs.append({'x': [] if none else rows(r), 'm': m, 't': r.choice(T + [''] * 4) if ts else ''})
        return {'t': 'execute', 'k': k, 'cs': cs}
    its = []
    bad = r.random() < .15
    p = r.choice([0, .5, .9])
    form = 'array' if r.random() < .15 else 'list'
    one = {'k': 'list', 'cs': [{'x': rows(r), 'm': msg(r, p)}]}
    for i in range(n):
        if form == 'array':
            its.append(one)
            continue
        if not c['nodes'][i]['n'] and r.random() < .8:
            its.append({'k': 'none', 'cs': []})
            continue
        k = r.choice(['none', 'iter', 'list']) if bad else 'list'
        if c['nodes'][i]['n'] == 1 and r.random() < .3:
            k = 'iter'
        m = 0 if bad and r.random() < .3 or k == 'none' else r.choice([1, 1, 2, 3])
        its.append({'k': k, 'cs': [{'x': rows(r), 'm': msg(r, p)} for _ in range(m)]})
    if bad and r.random() < .3 and form == 'list':
        its = its[:-1] if r.random() < .5 else its + [its[-1]]
    sms = [msg(r, .4 if c['nodes'][i]['k'] == 'bi' else .05) if i < n and r.random() < .3 else {'a': 0, 'r': 0, 'pa': 0}
           for i in range(len(its))]
    for m in sms:
        m['r'] = 0
    return {'t': 'train', 'form': form, 'its': its, 'sms': sms,
            'cps': [r.choice(['none', 'nil', 'dict']) for _ in range(n)] if c['cp'] else []}
