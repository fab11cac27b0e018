"""Driver binding spec Graph to mdp.graph.Graph."""
import mdp
from mdp import graph
import common


class Driver(object):
    count = 0

    def __init__(self, cfg):
        self.g, self.by, self.name = graph.Graph(), [], {}
        self.old = []
        Driver.count += 1
        self.k = Driver.count

    def new(self, nodes):
        for n in nodes:
            self.by.append(n)
            self.name[n] = len(self.by)

    def edge(self, e):
        return [self.name.get(e.head, 0), self.name.get(e.tail, 0), e.data or 0]

    def edges(self, es):
        return sorted(self.edge(e) for e in es)

    def names(self, ns):
        return [self.name.get(n, 0) for n in ns]

    def render(self, tree):
        kids = [self.render(k) for k in tree['kids']]
        self.k += 1
        self.num += 1
        v = 'v%d' % self.num
        if not kids and self.k % 2:
            return v
        return [v] + kids if self.k % 3 else tuple([v] + kids)

    def flat(self, x):
        return sum((self.flat(v) for v in x), []) if isinstance(x, (list, tuple)) else [x]

    def shape(self, x):
        return [self.shape(v) for v in x] if isinstance(x, (list, tuple)) else 0

    def do(self, op):
        try:
            return self.do1(op)
        except graph.GraphException:
            return 'refused'
        except ValueError:
            return 'refused' if op['t'] == 'rmedge' else 'ValueError'

    def do1(self, op):
        t, g, by = op['t'], self.g, self.by
        self.k += 1
        if t == 'node':
            n = g.add_node('x%d' % self.k)
            if n.data != 'x%d' % self.k:
                return 'wrong data'
            self.new([n])
        elif t == 'nodes':
            data = ['d%d' % i for i in range(op['k'])]
            ns = g.add_nodes(op['k'] if self.k % 2 else data if self.k % 3 else tuple(data))
            if [n.data for n in ns] != ([None] * op['k'] if self.k % 2 else data):
                return 'wrong data'
            self.new(ns)
        elif t == 'tree':
            self.num = 0
            tr = self.render(op['tree'])
            if not isinstance(tr, (list, tuple)):
                tr = (tr,)
            res = g.add_tree(tr)
            ns = self.flat(res)
            if self.shape(res) != self.shape(tr) or [n.data for n in ns] != self.flat(tr):
                return 'wrong tree'
            self.new(ns)
        elif t == 'edge':
            e = g.add_edge(by[op['h'] - 1], by[op['d2'] - 1], op['d'])
            if self.edge(e) != [op['h'], op['d2'], op['d']] or \
                    list(e.get_ends()) != [e.get_head(), e.get_tail()]:
                return 'wrong edge'
        elif t == 'full':
            es = g.add_full_connectivity([by[a - 1] for a in op['hs']], [by[a - 1] for a in op['ts']])
            if [[self.edge(e)[:2] for e in q] for q in es] != [[[a, b] for b in op['ts']] for a in op['hs']]:
                return 'wrong edges'
        elif t == 'rmnode':
            g.remove_node(by[op['a'] - 1])
        elif t == 'rmedge':
            w = [op['h'], op['d2'], op['d']]
            es = [e for e in g.edges if self.edge(e) == w] or [e for e in self.old if self.edge(e) == w] \
                or [graph.GraphEdge(by[0] if by else graph.GraphNode(), by[0] if by else graph.GraphNode())]
            e = es[self.k % len(es)]
            g.remove_edge(e)
            self.old.append(e)
        elif t in ('dfs', 'bfs', 'udfs', 'ubfs'):
            seen = []
            f = getattr(g, {'u': 'undirected_'}.get(t[0], '') + t[-3:])
            op['res'] = self.names(f(by[op['a'] - 1], seen.append) if self.k % 2 else f(by[op['a'] - 1]))
            if self.k % 2 and self.names(seen) != op['res']:
                return 'visited differently'
        elif t == 'topo':
            op['raised'] = False
            try:
                res = g.topological_sort()
            except graph.GraphTopologicalException as e:
                op['raised'] = True
                res = e.args[0]
            op['res'] = self.names(res)
        elif t == 'comps':
            op['res'] = [self.names(c) for c in g.connected_components()]
        elif t == 'weak':
            op['res'] = g.is_weakly_connected()
        return 'ok'

    def obs(self):
        g = self.g
        alive = sorted(self.names(g.nodes))
        o = {'ns': alive, 'es': self.edges(g.edges), 'at': [], 'one': True}
        ids = sorted(map(id, g.edges))
        o['one'] = ids == sorted(id(e) for n in g.nodes for e in n.ein) == sorted(id(e) for n in g.nodes for e in n.eout)
        for a in alive:
            n = self.by[a - 1]
            o['at'].append({
                'in': self.edges(n.get_edges_in()), 'out': self.edges(n.get_edges_out()), 'all': self.edges(n.get_edges()),
                'deg': [n.in_degree(), n.out_degree(), n.degree()],
                'nb': [sorted(self.names(n.in_neighbors())), sorted(self.names(n.out_neighbors())), sorted(self.names(n.neighbors()))],
                'with': [[self.edges(n.get_edges_in(m)), self.edges(n.get_edges_out(m)), self.edges(n.get_edges(m))]
                         for m in (self.by[b - 1] for b in alive)]})
        # what is returned is the caller's own
        for n in g.nodes:
            n.get_edges_in().append(None)
            n.get_edges_out().append(None)
            n.get_edges().append(None)
        return o

    def proj(self, s):
        ns = sorted(s['ns'])
        es = sorted([e['h'], e['t'], e['d']] for e in s['es'])
        o = {'ns': ns, 'es': es, 'at': [], 'one': True}
        for a in ns:
            i, q = [e for e in es if e[1] == a], [e for e in es if e[0] == a]
            o['at'].append({
                'in': i, 'out': q, 'all': sorted(i + q), 'deg': [len(i), len(q), len(i + q)],
                'nb': [sorted(e[0] for e in i), sorted(e[1] for e in q), sorted([e[0] for e in i] + [e[1] for e in q])],
                'with': [[[e for e in i if e[0] == b], [e for e in q if e[1] == b],
                          sorted([e for e in i if e[0] == b] + [e for e in q if e[1] == b])] for b in ns]})
        return o
