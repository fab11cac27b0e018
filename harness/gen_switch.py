"""Random configurations and operations for spec Switch."""


def cfg(r):
    kind = r.choice(['plain', 'plain', 'mean', 'chan', 'meanchan', 'bi', 'bichan'])
    och, ich = (r.randint(1, 3), r.randint(1, 3)) if 'chan' in kind else (1, 1)
    din = ich * r.randint(1, 4) + (r.random() < .05)
    if r.random() < .4:
        con = list(range(din))
        r.shuffle(con)
    else:
        con = [r.randrange(din) for _ in range(och * r.randint(1, 5))]
    while any(con.count(v) > 6 for v in con):
        con = [r.randrange(din) for _ in range(och * r.randint(1, 2))]
    if r.random() < .08:
        con[r.randrange(len(con))] = r.choice([-1, -2, din, din + 1, -din])
    return {'kind': kind, 'din': din, 'con': con, 'och': och, 'ich': ich}


def data(r, w):
    if r.random() < .08:
        w += 1
    n = r.choice([0, 1, 2, 3])
    return {'x': [[60 * r.randint(-20, 20) for _ in range(w)] for _ in range(n)],
            'dt': r.choice(['f8', 'f4', 'i4']), 'w': w}


def op(r, c):
    n, k = len(c['con']), c['kind']
    if k in ('bi', 'bichan') and r.random() < .6:
        inv = r.random() < .5
        m = []
        for key in ('a', 'b', 'c')[:r.randint(1, 3)]:
            a = r.random() < .7
            w = r.choice([c['din'], n, n, 1 + r.randint(0, 6)]) if a else 1
            m.append({'k': key, 'a': a, 'w': w, 'x': [[60 * r.randint(0, 9) for _ in range(w)] for _ in range(r.randint(1, 3))]})
        return {'t': 'binverse' if inv else 'bexec', 'none': r.random() < .4, 'd': data(r, n if inv else c['din']), 'm': m}
    if 'chan' in k and r.random() < .6:
        j = r.randrange(n // c['och'])
        return r.choice([{'t': 'outin', 'c': j},
                         {'t': 'outnode', 'c': j, 'd': {'x': [[r.randint(0, 99) for _ in range(c['din'])] for _ in range(2)], 'dt': 'f8', 'w': c['din']}},
                         {'t': 'ins', 'cs': [r.randrange(n // c['och']) for _ in range(r.randint(1, 3))]}])
    return {'t': 'execute', 'd': data(r, c['din'])} if r.random() < .5 else {'t': 'inverse', 'd': data(r, n)}
