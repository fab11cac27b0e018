"""Random histories for spec Delay."""


def cfg(r):
    return {'kind': r.choice(['frames', 'delay', 'slide', 'slide']), 'tf': r.randint(1, 6), 'gap': r.randint(1, 6),
            'i': r.choice([0, 0, 1, 2, 3]), 'dt': r.choice(['', '', 'f8', 'f4', 'i4', 'u1'])}


class Gen(object):
    def __init__(self, r, c):
        self.r, self.c, self.w = r, c, c['i'] or r.randint(1, 3)

    def op(self, k, d):
        r, c, w = self.r, self.c, self.w
        if d.node is None:
            return {'t': 'new'}
        if r.random() < .06:
            w += 1
        t = r.choice(['execute'] * 8 + ['pinv', 'inverse', 'setin', 'setout'])
        if t in ('setin', 'setout'):
            return {'t': t, 'n': w}
        n = 1 if c['kind'] == 'slide' and r.random() < .95 else r.randint(0, 3 + (c['tf'] + 1) * c['gap'])
        rows = [[r.randint(0, 99) for _ in range(w)] for _ in range(n)]
        if t == 'pinv':
            rows = [sum((rows[i + f * c['gap']] for f in range(c['tf'])), []) for i in range(n - (c['tf'] - 1) * c['gap'])]
            w *= c['tf']
        return {'t': t, 'x': {'x': rows, 'cols': w, 'rank': 2, 'dt': r.choice(['f8', 'f8', 'f4', 'i8', 'u1'] if r.random() < .97 else ['ob'])}}
