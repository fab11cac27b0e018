"""Random configurations and operations for spec Layer."""


def cfg(r):
    kind = r.choice(['layer', 'layer', 'clone', 'same'])
    typed = r.random() < .3
    same = r.randint(1, 4)
    nodes = []
    for _ in range(1 if kind == 'clone' else r.choice([1, 2, 3, 4, 5])):
        n = r.choice([0, 0, 1, 1, 2, 3])
        out = r.choice([0, 1, 1, 2, 3])
        nodes.append({'in': same if kind == 'same' and r.random() < .97 else r.randint(1, 4) if r.random() < .98 else 0,
                      'out': out, 'so': r.randint(0, 3) if n and not out else 0, 'n': n,
                      'done': n > 0 and r.random() < .2, 'inv': r.random() < .9, 'oi': r.random() < .3,
                      'dt': r.choice(['', '', 'f4', 'f8']) if typed else '',
                      'sup': r.choice([['f4', 'f8'], ['f8']]) if typed else ['f4', 'f8']})
        if nodes[-1]['dt'] not in nodes[-1]['sup']:
            nodes[-1]['dt'] = ''
        if nodes[-1]['done'] and nodes[-1]['so']:
            nodes[-1]['out'] = nodes[-1]['so']
    return {'kind': kind, 'm': r.randint(1, 4) if kind == 'clone' else 0,
            'dt': r.choice(['', 'f4', 'f8']) if typed else '', 'nodes': nodes}


def data(r, w):
    if r.random() < .06:
        w += r.choice([-1, 1, 2])
    n = r.randint(1, 4) if r.random() < .97 else 0
    return {'x': [[r.randint(0, 20) for _ in range(max(w, 1))] for _ in range(n)],
            'dt': r.choice(['f8', 'f8', 'f8', 'f4', 'i4']), 'w': max(w, 1)}


def op(r, c, drv):
    if drv.layer is None:
        return {'t': 'new'}
    k = c['m'] if c['kind'] == 'clone' else len(c['nodes'])
    ins = [n['in'] for n in c['nodes']]
    w = ins[0] if c['kind'] == 'same' else ins[0] * k if c['kind'] == 'clone' else sum(ins)
    u = r.random()
    a = r.choice([0, 0, 0, 1, 2])
    if u < .3:
        return {'t': 'train', 'd': data(r, w), 'a': a}
    if u < .5:
        return {'t': 'stop', 'a': a}
    if u < .8:
        return {'t': 'execute', 'd': data(r, w), 'a': a}
    if u < .93:
        return {'t': 'inverse', 'd': data(r, drv.layer.output_dim or 1), 'a': a}
    return {'t': 'setdt', 'dt': r.choice(['', 'f4', 'f8', 'i4'])}
