"""Random configurations and operations for spec FlowNode."""
from gen_layer import data


def cfg(r):
    nodes = []
    typed = r.random() < .3
    w = r.choice([0, 1, 2, 3])
    for _ in range(r.choice([1, 2, 2, 3, 3, 4])):
        g = r.choice(['', '', '', 'pd', 'ex'])
        n = r.choice([0, 0, 1, 2])
        i = w if r.random() < .4 else 0
        o = 2 * i if g == 'ex' else i if g == 'pd' else r.choice([0, 0, 1, 2, 3])
        so = r.randint(0, 2) if n and g == '' and not o else 0
        w = o or (i if r.random() < .5 else 0)
        nodes.append({'g': g, 'in': i, 'out': o, 'so': so, 'n': n, 'pre': 0, 'inv': r.random() < .9,
                      'dt': r.choice(['', '', 'f4', 'f8']) if typed else '',
                      'sup': r.choice([['f4', 'f8'], ['f8']]) if typed else ['f4', 'f8']})
        if nodes[-1]['dt'] not in nodes[-1]['sup']:
            nodes[-1]['dt'] = ''
    if r.random() < .3:
        # pretrained nodes at the front
        for q in nodes:
            q['pre'] = r.choice([q['n'], q['n'], max(q['n'] - 1, 0), 0])
            if q['pre'] == q['n'] and q['n'] and q['so']:
                q['out'] = q['so']
            if q['pre'] < q['n']:
                break
    return {'in': r.choice([0, 0, 0, nodes[0]['in'], 2]), 'out': r.choice([0, 0, 0, nodes[-1]['out'], 2]),
            'dt': r.choice(['', 'f4', 'f8']) if typed else '', 'nodes': nodes}


def op(r, c, d):
    if d.fn is None:
        return {'t': 'new'}
    w = d.fn.input_dim or r.randint(1, 3)
    u = r.random()
    a = r.choice([0, 0, 1])
    if u < .3:
        return {'t': 'train', 'd': data(r, w), 'a': a}
    if u < .55:
        return {'t': 'stop', 'a': a}
    if u < .75:
        return {'t': 'execute', 'd': data(r, w)}
    if u < .85:
        return {'t': 'inverse', 'd': data(r, d.fn.output_dim or 1)}
    if u < .92:
        return {'t': r.choice(['copy', 'copy', 'badcopy'])}
    t = r.choice(['setin', 'setout', 'setdt'])
    return {'t': t, 'dt': r.choice(['f4', 'f8', 'i4'])} if t == 'setdt' else {'t': t, 'n': r.randint(1, 4)}
