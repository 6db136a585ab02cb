"""Circuits as lists of edges with documented laws, and Kirchhoff's laws for them: the oracle of C10.

Sign convention (documented by the dictionary): an edge n1 -> n2 carries a flux f oriented n1 -> n2 and an
effort e = potential(n1) - potential(n2), so that e*f is the power received by the component.
"""
import itertools
import warnings
import sympy as sp
from .env import import_pyphs
pyphs = import_pyphs()
from pyphs import Graph, Core  # noqa
from pyphs.config import datum  # noqa
from pyphs.dictionary import edges as dic_edges, connectors as dic_conn, electronics as dic_el  # noqa

D = datum
S = Core.symbols


class Edge:
    def __init__(self, name, kind, n1, n2, **kw):
        self.name, self.kind, self.n1, self.n2 = name, kind, n1, n2
        self.__dict__.update(kw)
        self.f, self.e = S('f_' + name), S('e_' + name)


class Circuit:
    """components: (kind, label, nodes[, ctrl]); kinds
    R C L      linear resistor, capacitor (f-controlled), inductor (e-controlled), one symbolic parameter
    V I P      port with imposed effort, imposed flux, or left open ('?')
    N          nonlinear dissipation with both forms (undefined functions are not invertible: the law is
               given by the pair z_e, z_f of the edge and each form is recognised as itself)
    E F        nonlinear dissipation, effort- or flux-controlled only
    K M        nonlinear storage, effort- or flux-controlled
    T G        transformer, gyrator with symbolic ratio
    """

    def __init__(self, comps):
        self.comps = [tuple(c) for c in comps]
        self.edges = []
        self.links = []
        for c in self.comps:
            k, lab, nodes = c[:3]
            if k in 'TG':
                a = Edge(lab + '1', 'conn', nodes[0], nodes[1])
                b = Edge(lab + '2', 'conn', nodes[2], nodes[3])
                self.edges += [a, b]
                self.links.append((k, lab, a, b, S('a' + lab)))
            else:
                self.edges.append(Edge(lab, k, nodes[0], nodes[1]))
        self.by = {e.name: e for e in self.edges}

    # ------------------------------------------------------------ real code
    def graph(self, order=None, label='circuit'):
        comps = [self.comps[i] for i in order] if order else self.comps
        g = Graph(label=label)
        for c in comps:
            k, lab, nodes = c[:3]
            if k == 'R':
                g += dic_el.Resistor(lab, nodes, R='r' + lab)
            elif k == 'C':
                g += dic_el.Capacitor(lab, nodes, C='c' + lab)
            elif k == 'L':
                g += dic_el.Inductor(lab, nodes, L='l' + lab)
            elif k in 'VI':
                g += dic_el.Source(lab, nodes, type={'V': 'voltage', 'I': 'current'}[k])
            elif k == 'P':
                g += dic_edges.Port(lab, nodes, ctrl='?')
            elif k in 'NEF':
                w = S('w' + lab)
                ze, zf = S('r' + lab) * w**3 + w, w / (1 + w**2) * S('r' + lab)
                z = dict(e_ctrl=ze if k != 'F' else sp.Integer(0), f_ctrl=zf if k != 'E' else sp.Integer(0))
                g += dic_edges.DissipativeNonLinear(
                    lab, [(nodes[0], nodes[1], dict(label=w, type='dissipative', z=z, link=None,
                                                    ctrl={'N': '?', 'E': 'e', 'F': 'f'}[k]))],
                    [w], [z['f_ctrl']])
                g.core.add_parameters(S('r' + lab))
            elif k in 'KM':
                x = S('x' + lab)
                g += dic_edges.StorageNonLinear(
                    lab, [(nodes[0], nodes[1], dict(label=x, type='storage', link=None,
                                                    ctrl={'K': 'e', 'M': 'f'}[k]))],
                    [x], S('k' + lab) * x**4 / 4 + x**2 / 2)
                g.core.add_parameters(S('k' + lab))
            else:
                g += {'T': dic_conn.Transformer, 'G': dic_conn.Gyrator}[k](lab, nodes, alpha='a' + lab)
        return g

    # ------------------------------------------------------------ oracle
    def components_of(self):
        nodes = sorted({n for e in self.edges for n in (e.n1, e.n2)})
        par = {n: n for n in nodes}

        def find(n):
            while par[n] != n:
                n = par[n]
            return n
        tree = []
        for i, e in enumerate(self.edges):
            a, b = find(e.n1), find(e.n2)
            if a != b:
                par[a] = b
                tree.append(i)
        roots = {}
        for n in nodes:
            roots.setdefault(find(n), []).append(n)
        return nodes, roots, tree

    def kirchhoff(self):
        """all (flux, effort) allowed by the node and loop laws, as linear functions of free
        potentials and loop currents (as many as there are edges)"""
        nodes, roots, tree = self.components_of()
        V = {}
        free = []
        for r in sorted(roots):
            ref = D if D in roots[r] else roots[r][0]
            for n in roots[r]:
                V[n] = sp.Integer(0) if n == ref else S('V_%s' % (n if n.isalnum() else 'x'))
                if n != ref:
                    free.append(V[n])
        cur = {i: sp.Integer(0) for i in range(len(self.edges))}
        adj = {}
        for i in tree:
            e = self.edges[i]
            adj.setdefault(e.n1, []).append((e.n2, i, 1))
            adj.setdefault(e.n2, []).append((e.n1, i, -1))

        def path(a, b):
            todo, seen = [(a, [])], {a}
            while todo:
                n, p = todo.pop()
                if n == b:
                    return p
                for m, i, sg in adj.get(n, []):
                    if m not in seen:
                        seen.add(m)
                        todo.append((m, p + [(i, sg)]))
        for i, e in enumerate(self.edges):
            if i in tree:
                continue
            c = S('J_' + e.name)
            free.append(c)
            cur[i] += c
            for j, sg in path(e.n2, e.n1):
                cur[j] += sg * c
        rep = {}
        for i, e in enumerate(self.edges):
            rep[e.f] = cur[i]
            rep[e.e] = V[e.n1] - V[e.n2]
        assert len(free) == len(self.edges)
        return rep, free

    def laws(self, mirrored=()):
        """equations (== 0) of the connectors, in edge fluxes and efforts (documented laws); the transformers
        in `mirrored` have e_A = -al e_B, f_B = al f_A instead (known finding of C10)"""
        out = []
        for k, lab, a, b, al in self.links:
            if lab in mirrored:
                out += [a.e + al * b.e, b.f - al * a.f]
            elif k == 'G':
                out += [a.e + al * b.f, b.e - al * a.f]
            else:
                out += [a.f + al * b.f, b.e - al * a.e]
        return out


def quiet(fn, *a, **k):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return fn(*a, **k)
