"""Random histories for spec Fork."""
ONE = ['pca', 'white', 'svd', 'sfa', 'sfa0', 'sfa2', 'gauss', 'mean', 'knn', 'hist', 'cutoff', 'layer', 'clone', 'biclone', 'bicopies']
TWO = ['fda', 'flow', 'layers']


X = {'tally': (0, 1, 0), 'xclone': (0, 2, 0), 'xflow': (1, 1, 1), 'xlayer': (1, 1, 0), 'xdeep': (1, 2, 0)}


def cfg(r):
    if r.random() < .2:
        k = r.choice(sorted(X))
        return {'kind': k, 'phases': X[k][0], 'n': 4, 'x': {'e': X[k][1], 't': X[k][2]}}
    two = r.random() < .35
    return {'kind': r.choice(TWO if two else ONE), 'phases': 1 + two, 'n': 4, 'x': {'e': 0, 't': 0}}


class Gen(object):
    """Keeps track of who was forked from whom, so that only sensible joins are made."""

    def __init__(self, r, c):
        self.r, self.c = r, c
        self.nodes = []          # [phase, history of earlier phases, dead]
        self.stamp = 0

    def op(self, k, d):
        r, N = self.r, self.nodes
        if not N:
            N.append({'ph': 1, 'past': 0, 'dead': False, 'seen': False})
            return {'t': 'new'}
        live = [j for j, n in enumerate(N) if not n['dead']]
        x = self.c['x']['e'] > 0
        t = r.choice(['train'] * 4 + ['fork', 'fork', 'join', 'join', 'join', 'stop'])
        j = r.choice(live)
        n = N[j]
        if t == 'train' and not (x and n['ph'] > self.c['phases']):
            n['seen'] = n['seen'] or n['ph'] <= self.c['phases']
            return {'t': t, 'j': j + 1, 'c': r.randint(1, self.c['n'])}
        over = n['ph'] > self.c['phases']
        if over and x and t not in ('fork', 'join'):
            return {'t': 'exec', 'j': j + 1, 'c': r.randint(1, self.c['n'])}
        if over and not x:
            return {'t': 'train', 'j': j + 1, 'c': 1}
        if t == 'fork' and len(N) < 5:
            N.append(dict(n, seen=False))
            return {'t': t, 'j': j + 1}
        if t == 'join':
            ok = [m for m in live if m != j and N[m]['ph'] == n['ph'] and N[m]['past'] == n['past']]
            if ok:
                m = r.choice(ok)
                N[m]['dead'] = True
                n['seen'] = n['seen'] or N[m]['seen']
                return {'t': t, 'j': j + 1, 'k': m + 1}
        if t == 'stop':
            if n['seen']:
                for m in N:
                    m['dead'] = m is not n
                self.stamp += 1
                n.update(ph=n['ph'] + 1, past=self.stamp, seen=False)
            return {'t': t, 'j': j + 1}
        if over:
            return {'t': 'exec', 'j': j + 1, 'c': r.randint(1, self.c['n'])}
        n['seen'] = True
        return {'t': 'train', 'j': j + 1, 'c': r.randint(1, self.c['n'])}
