"""Random histories for spec Copies."""
import zoo


def cfgs():
    return [{'kind': k, 'phases': z.phases, 'whole': z.whole} for k, z in zoo.ZOO.items()]


class Gen(object):
    def __init__(self, r, c):
        self.r, self.c, self.n, self.dead, self.goal = r, c, 0, set(), r.choice([0, 1, 2, 99])

    def op(self, k, d):
        r = self.r
        if not self.n:
            self.n = 1
            return {'t': 'new'}
        live = [j for j in range(1, self.n + 1) if j not in self.dead]
        j = r.choice(live)
        if self.n < 3 and k > self.goal and r.random() < .45 or self.n == 1 and k > 5:
            self.n += 1
            return {'t': 'copy', 'j': j, 'way': r.choice(['copy', 'copy', 'deep', 'string', 'text', 'file', 'zero'])}
        if len(live) > 1 and r.random() < .3:
            self.dead.add(j)
            return {'t': 'ruin', 'j': j}
        t = r.choice(['train', 'train', 'stop', 'stop', 'exec']) if not self.c['whole'] else r.choice(['train', 'exec'])
        return {'t': t, 'j': j, 'c': r.choice('12')} if t == 'train' else {'t': t, 'j': j}
