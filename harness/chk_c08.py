"""C08: the extension mechanism."""
import mdp
import common

SEQ = [0]
KINDS = ['m', 's', 'd']


def attr(a):
    return 'at%d' % a


class Driver(object):
    def __init__(self, cfg):
        self.cfg = cfg
        SEQ[0] += 1
        self.names = ['v%d_%d' % (SEQ[0], e) for e in range(1, len(cfg['def']) + 1)]
        self.ev = []
        self.stack = []
        self.sub = 0
        self.before = list(mdp.get_active_extensions())
        self.cls = []
        for k, par in enumerate(cfg['par'], 1):
            d = {attr(a): self.native(k, a) for a in cfg['own'][k - 1]}
            bases = tuple(self.cls[p - 1] for p in par) or (object,)
            self.cls.append(type('C%d' % k, bases, d))
        self.keys = [set(c.__dict__) for c in self.cls]
        self.raw = [{a: c.__dict__[attr(a)] for a in cfg['own'][k]}
                    for k, c in enumerate(self.cls)]
        self.inst = [c() for c in self.cls]
        for e in range(1, len(cfg['def']) + 1):
            self.define(e, cfg['def'][e - 1])
            if cfg['su'][e - 1]:
                def setup(e=e):
                    self.ev.append(e)
                    if cfg['su'][e - 1] == 2:
                        raise ValueError('setup')
                mdp.extension_setup(self.name(e))(setup)
                mdp.extension_teardown(self.name(e))(lambda e=e: self.ev.append(-e))

        self.nenter = 0
        ids = range(1, len(self.names) + 1)
        self.early = {es: mdp.extension([self.name(e) for e in es]) for es in
                      [(e,) for e in ids] + [(a, b) for a in ids for b in ids if a != b]}

    def name(self, e):
        return self.names[e - 1] if e <= len(self.names) else 'v_unknown'

    def native(self, k, a):
        kind = KINDS[a % 3]
        if kind == 'm':
            return lambda s: [k, 0]
        if kind == 's':
            return staticmethod(lambda: [k, 0])
        return [k, 0]

    def injected(self, e, d, k, a):
        # a data attribute stays one; a static one is extended by a method
        if KINDS[a % 3] == 'd':
            return ['ext', 10 * e + d]
        return lambda s: ['ext', 10 * e + d]

    def define(self, e, d):
        n = self.name(e)
        if d['style'] == 'fn':
            if not d['items']:
                mdp.get_extensions()[n] = {}
            for k, a in d['items']:
                self.register(e, k, a)
            return
        base = dict(extension_name=n)
        base.update({attr(a): self.injected(e, 0, 0, a) for a in d['base']})
        ext = [type(mdp.ExtensionNode)('E%d' % e, (mdp.ExtensionNode,), base)]
        for i, nd in enumerate(d['nodes'], 1):
            dd = {attr(a): self.injected(e, i, 0, a) for a in nd['at']}
            ext.append(type(mdp.ExtensionNode)('E%d_%d' % (e, i),
                                               (ext[nd['par']], self.cls[nd['k'] - 1]), dd))

    def register(self, e, k, a):
        v = self.injected(e, k, k, a)
        if callable(v):
            if (e + k + a) % 2:
                v.__name__ = attr(a)
                mdp.extension_method(self.name(e), self.cls[k - 1])(v)
            else:
                mdp.extension_method(self.name(e), self.cls[k - 1], attr(a))(v)
        else:
            mdp.extension_method(self.name(e), self.cls[k - 1], attr(a))(v)

    def look(self, obj, k, a):
        try:
            v = getattr(obj, attr(a))
        except AttributeError:
            return [0, 0]
        if callable(v):
            v = v()
        if v[0] != 'ext':
            return v
        # which class the injected value was found on
        for c in type(obj).__mro__:
            if attr(a) in c.__dict__:
                return [self.cls.index(c) + 1, v[1]]

    def table(self):
        n = range(1, self.cfg['na'] + 1)
        out = []
        for k, o in enumerate(self.inst, 1):
            row = [self.look(o, k, a) for a in n]
            # a class created now sees the same
            self.sub += 1
            if self.sub % 7:
                out.append(row)
                continue
            new = type('Late', (self.cls[k - 1],), {})()
            if [self.look(new, k, a) for a in n] != row:
                return 'a new subclass of class %d sees something else' % k
            out.append(row)
        return out

    def observe(self):
        act = [e for e in range(1, len(self.names) + 1)
               if self.name(e) in mdp.get_active_extensions()]
        clean = True
        if not act:
            clean = all(set(c.__dict__) == ks for c, ks in zip(self.cls, self.keys)) and \
                all(c.__dict__.get(attr(a)) is v for c, r in zip(self.cls, self.raw)
                    for a, v in r.items())
        nx = []
        for k, c in enumerate(self.cls, 1):
            row = []
            for a in range(1, self.cfg['na'] + 1):
                v = 0
                if a in self.cfg['own'][k - 1] and '_non_extension_' + attr(a) in c.__dict__:
                    v = getattr(self.inst[k - 1], '_non_extension_' + attr(a))
                    v = v() if callable(v) else v
                    v = 1 if v == [k, 0] else 'not the original'
                row.append(v)
            nx.append(row)
        return {'tab': self.table(), 'nx': nx, 'act': act, 'clean': clean,
                'nctx': len(self.stack)}

    def apply(self, op):
        t = op['t']
        if t == 'act':
            mdp.activate_extension(self.name(op['e']))
        elif t == 'deact':
            mdp.deactivate_extension(self.name(op['e']))
        elif t == 'acts':
            mdp.activate_extensions([self.name(e) for e in op['es']])
        elif t == 'deacts':
            mdp.deactivate_extensions([self.name(e) for e in op['es']])
        elif t == 'enter':
            ns = [self.name(e) for e in op['es']]
            # half of the time a context made before anything was active
            self.nenter += 1
            c = self.early.get(tuple(op['es']))
            if c is None or self.nenter % 2 or any(c is x for x in self.stack):
                c = mdp.extension(ns[0] if len(ns) == 1 else ns)
            c.__enter__()
            self.stack.append(c)
        elif t == 'exit':
            c = self.stack.pop(op['i'] - 1)
            if op['x']:
                exc = KeyError('body')
                if not c.__exit__(KeyError, exc, None):
                    raise exc
            else:
                c.__exit__(None, None, None)
        elif t == 'reg':
            self.register(op['e'], op['k'], op['a'])
        elif t == 'call':
            def body(x, y=3):
                """doc"""
                self.seen = self.table()
                if op['b'] == 'raise':
                    raise KeyError('body')
                if op['b'] == 'deact':
                    mdp.deactivate_extension(self.name(op['e']))
                if op['b'] == 'nest':
                    @mdp.with_extension(self.name(op['e2']))
                    def inner():
                        return 7
                    assert inner() == 7
                return x + y
            act = self.name(op['e']) in mdp.get_active_extensions()
            if act and op['b'] in ('deact', 'nest'):
                op = dict(op, b='')
            f = mdp.with_extension(self.name(op['e']))(body)
            r = f(4)
            if r != 7:
                raise RuntimeError('decorated function returned %r' % (r,))

    def do(self, op):
        self.ev = []
        self.seen = []
        k, r = common.outcome(self.apply, op)
        return {'out': {'e': type(r).__name__ if k == 'exc' else '',
                        'ev': sorted(self.ev), 'in': self.seen},
                'obs': self.observe()}

    def obs(self):
        return 0

    def proj(self, s):
        return 0

    def close(self):
        for n in self.names:
            common.outcome(mdp.deactivate_extension, n)
            mdp.get_extensions().pop(n, None)


class DriverTR(Driver):
    def do(self, op):
        return Driver.do(self, op)['out']

    def obs(self):
        return self.observe()

    def proj(self, s):
        s['act'] = sorted(s['act'])
        return s


def gen_cfg(r):
    n = r.randint(3, 6)
    par, mro = [], []
    py = []
    for k in range(1, n + 1):
        while True:
            p = r.sample(range(1, k), min(k - 1, r.choice([0, 1, 1, 1, 2]))) if k > 1 else []
            try:
                c = type('T%d' % k, tuple(py[q - 1] for q in p) or (object,), {})
                break
            except TypeError:
                pass
        py.append(c)
        par.append(p)
        mro.append([py.index(x) + 1 for x in c.__mro__[:-1]])
    na = r.randint(1, 3)
    some = lambda: [a for a in range(1, na + 1) if r.random() < .5]
    defs = []
    for e in range(r.randint(2, 4)):
        if r.random() < .5:
            items = []
            for _ in range(r.randint(0, 4)):
                it = [r.randint(1, n), r.randint(1, na)]
                if it not in items:
                    items.append(it)
            defs.append({'style': 'fn', 'items': items, 'base': [], 'nodes': []})
        else:
            nodes = []
            for _ in range(r.randint(1, 3)):
                k = r.randint(1, n)
                ps = [i for i, q in enumerate(nodes, 1) if q['k'] != k and q['k'] in mro[k - 1]]
                nodes.append({'k': k, 'par': r.choice([0] + ps), 'at': some()})
            defs.append({'style': 'cls', 'items': [], 'base': some(), 'nodes': nodes})
    return {'par': par, 'mro': mro, 'na': na, 'own': [some() for _ in range(n)], 'def': defs,
            'su': [r.choice([0, 0, 1, 2]) if r.random() < .5 else 0 for _ in defs]}


def gen_op(r, c, d):
    m = len(c['def'])
    e = r.choice(list(range(1, m + 1)) * 4 + [9])
    es = [r.choice(list(range(1, m + 1)) * 6 + [9]) for _ in range(r.randint(1, 3))]
    if d.stack and r.random() < .25:
        return {'t': 'exit', 'i': r.randint(1, len(d.stack)), 'x': r.random() < .5}
    t = r.choice(['act'] * 4 + ['deact'] * 2 + ['acts', 'deacts', 'enter', 'enter', 'call',
                                                'call', 'call', 'reg'])
    if t in ('act', 'deact'):
        return {'t': t, 'e': e}
    if t in ('acts', 'deacts', 'enter'):
        return {'t': t, 'es': es}
    if t == 'call':
        return {'t': 'call', 'e': e, 'b': r.choice(['', 'raise', 'deact', 'nest', 'nest']),
                'e2': r.randint(1, m)}
    return {'t': 'reg', 'e': r.randint(1, m), 'k': r.randint(1, len(c['mro'])),
            'a': r.randint(1, c['na'])}


def run(chk):
    res = chk.explore('MC_Ext', env={'TIER': common.TIER})
    for t in res.emitted['T']:
        t['r']['obs']['act'].sort()
    chk.replay(res.emitted['T'], Driver, label='extensions')
    r = common.rng('ext')
    traces = []
    for _ in range(common.quick(250, 4000)):
        c = gen_cfg(r)
        n = r.randint(10, 30)
        traces.append(chk.record(DriverTR, c, lambda d, k: gen_op(r, c, d) if k < n else None))
    chk.compare('TR_Ext', traces, label='extensions')
