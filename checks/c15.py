"""C15: netlists round-trip."""
import itertools
import keyword
import os
import shutil
import string
import tempfile
from vlib.env import import_pyphs
pyphs = import_pyphs()
from vlib import text  # noqa
from vlib.text import Atom, PRINT, WORD, LETTERS  # noqa
from pyphs import Netlist  # noqa
from pyphs.graphs import netlists  # noqa
text.install(netlists)

META = dict(
    explanation='print_netlist_line, Netlist.write, Netlist.read, add_line, setline, delline and the sum of '
    'netlists run on symbolic strings: every name, node, label and number is a placeholder of a regular '
    'language, without bound on its length. Each operation of the real code that searches characters '
    '(partition, split, replace, count, literal_eval, eval...) is a z3 query on the language; where a string '
    'may hold the character the run is split and repeated. The lines read back are then the lines written, '
    'for every value of the placeholders. A difference is replayed on strings taken from the solver.',
    bounds=['0 to 3 lines, 1 to 4 nodes, 0 to 3 parameters of every documented form (number, label, (label, '
            'number), text)', 'labels: printable ASCII but spaces and ":"; nodes: printable ASCII but ":", '
            'quotes and backslash, or numbers; labels of parameters: identifiers; labels in tuples: printable '
            'ASCII but ";" "=" "," quotes and backslash; texts: absolute paths without ";" and "="',
            'histories of up to 3 operations on netlists of up to 3 lines'],
    outside=['labels of parameters that read as Python literals (12, None): the format cannot tell them from '
             'values', 'non ASCII text, infinite and not-a-number values'],
    assumptions=['repr of a finite float reads back as that float'],
    functions=['Netlist.read', 'Netlist.write', 'Netlist.netlist', 'Netlist.line', 'Netlist.add_line',
               'Netlist.setline', 'Netlist.delline', 'Netlist.__add__', 'Netlist.__getitem__',
               'print_netlist_line'])

LABEL = ''.join(c for c in PRINT if c not in ' :')
NODE = ''.join(c for c in PRINT if c not in ':\'"\\')
TUPLE = ''.join(c for c in PRINT if c not in ';=,\'"\\')
PATH = ''.join(c for c in PRINT if c not in ';=')
SOFT = tuple(keyword.kwlist)


def atoms_of(shape):
    """placeholders of a netlist: shape is a list of (number of nodes, kinds of the parameters)"""
    out = []
    for i, (nodes, pars) in enumerate(shape):
        out += [Atom('dic%d' % i, WORD, LETTERS), Atom('comp%d' % i, WORD, LETTERS), Atom('lab%d' % i, LABEL)]
        for j, k in enumerate(nodes):
            out.append(Atom('node%d%d' % (i, j), NODE) if k == 's' else Atom('num_node%d%d' % (i, j), text.NUMBER,
                                                                           kind='num'))
        for j, k in enumerate(pars):
            out.append(Atom('par%d%d' % (i, j), WORD, LETTERS))
            if k in 'nt':
                out.append(Atom('num_val%d%d' % (i, j), text.NUMBER, kind='num'))
            if k == 'l':
                out.append(Atom('plab%d%d' % (i, j), WORD, LETTERS, excl=SOFT))
            if k == 't':
                out.append(Atom('tlab%d%d' % (i, j), TUPLE))
            if k == 'p':
                out.append(Atom('path%d%d' % (i, j), PATH, '/'))
    return out


FIXED = {'T': True, 'F': False, 'N': None, 'i': 5, 'm': -2.5e-12}


def lines_of(shape, v):
    out = []
    for i, (nodes, pars) in enumerate(shape):
        args = {}
        for j, k in enumerate(pars):
            # distinct keys
            name = '%s%d' % (v['par%d%d' % (i, j)], j)
            args[name] = (v['num_val%d%d' % (i, j)] if k == 'n' else v['plab%d%d' % (i, j)] if k == 'l' else
                          (v['tlab%d%d' % (i, j)], v['num_val%d%d' % (i, j)]) if k == 't' else
                          v['path%d%d' % (i, j)] + '.txt' if k == 'p' else FIXED[k])
        out.append(dict(dictionary=v['dic%d' % i], component=v['comp%d' % i], label=v['lab%d' % i],
                        nodes=tuple(v[('node%d%d' if k == 's' else 'num_node%d%d') % (i, j)]
                                    for j, k in enumerate(nodes)), arguments=args))
    return out


def copies(lines):
    return [dict(l, arguments=dict(l['arguments'])) for l in lines]


def plain(lines):
    """comparable form of the lines of a netlist"""
    def p(v):
        if isinstance(v, tuple):
            return tuple(map(p, v))
        if isinstance(v, str):
            return ('s', ''.join(v))
        return (type(v).__name__ if v is None or isinstance(v, bool) else 'n', v)
    return [(p(l['dictionary']), p(l['component']), p(l['label']), p(tuple(l['nodes'])), isinstance(l['nodes'], tuple),
             [(p(k), p(v)) for k, v in l['arguments'].items()]) for l in lines]


def content(net):
    return [net[i] for i in range(net.nlines())]


class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix='c15')
        return self

    def path(self, n):
        return os.path.join(self.d, n + '.net')

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def roundtrip(s, shape, how):
    """write then read"""
    def body(v):
        lines = lines_of(shape, v)
        with Scratch() as d:
            net = Netlist(d.path('a'), clear=True)
            for l in copies(lines):
                net.add_line(l)
            if how == 'line':
                with open(d.path('b'), 'w', encoding='utf-8') as f:
                    f.write('# a comment\n\n')
                    for i in range(net.nlines()):
                        f.write(net.line(i))
                        f.write('\n' if i % 2 else '')
            else:
                net.write(d.path('b') if how == 'other' else None)
            same = plain(content(net)) == plain(lines)
            back = Netlist(d.path('a' if how == 'same' else 'b'))
            if how == 'same':
                back.write()
                back = Netlist(d.path('a'))
            return same, plain(content(back)), len(content(back))
    text.explore(s, 'trip', atoms_of(shape), body,
                 lambda v, r: r == (True, plain(lines_of(shape, v)), len(shape)))


def history(s, ops, n):
    """sequences of operations against a list of lines"""
    shape = [('ss', 'nt'), ('s', 'l'), ('sss', ''), ('ss', 't'), ('ns', 'n')][:n + sum(o[0] in 'as+' for o in ops)]

    def body(v):
        lines = lines_of(shape, v)
        fresh = iter(lines[n:])
        model = list(lines[:n])
        with Scratch() as d:
            net = Netlist(d.path('a'), clear=True)
            for l in copies(model):
                net.add_line(l)
            for k, o in enumerate(ops):
                if o == 'r':       # through a file
                    net.write()
                    net = Netlist(d.path('a'))
                elif o == 'a':
                    l = next(fresh)
                    net.add_line(copies([l])[0])
                    model.append(l)
                elif o[0] == 'd':
                    i = int(o[1:]) % len(model)
                    net.delline(i)
                    del model[i]
                elif o[0] == 's':
                    i = int(o[1:]) % len(model)
                    l = next(fresh)
                    net.setline(i, copies([l])[0])
                    model[i] = l
                elif o == '+':
                    l = next(fresh)
                    other = Netlist(d.path('c%d' % k), clear=True)
                    other.add_line(copies([l])[0])
                    net = net + other
                    if plain(content(other)) != plain([l]):
                        return 'the second netlist changed'
                    model.append(l)
            got = plain(content(net))
            net.write(d.path('z'))
            return got == plain(model), plain(content(Netlist(d.path('z')))) == plain(model), net.nlines() == len(model)
    text.explore(s, 'history', [a if a.name[:3] not in ('lab', 'dic', 'com') else Atom(a.name, WORD, LETTERS, excl=SOFT)
                                 for a in atoms_of(shape)], body, lambda v, r: r == (True, True, True))


def graph(s, which):
    """the graph of a netlist read back is the graph of its components"""
    from pyphs import Graph
    from pyphs.dictionary import electronics, mechanics, connectors
    comps = {
        'rlc': [('electronics', 'source', 'in', ('A', '#'), dict(type='voltage')),
                ('electronics', 'resistor', 'R1', ('A', 'B'), dict(R=('Rr', 1000.))),
                ('electronics', 'inductor', 'L1', ('B', 'E'), dict(L=('Ll', 0.05))),
                ('electronics', 'capacitor', 'C1', ('E', '#'), dict(C='Cc'))],
        'nl': [('electronics', 'source', 'in', ('A', '#'), dict(type='current')),
               ('mechanics', 'springcubic', 'k', ('A', '#'), dict(K0=1., K2=2e3)),
               ('mechanics', 'damper', 'd', ('A', '#'), dict(A=('Aa', 0.1)))],
        'tr': [('electronics', 'source', 'in', ('A', '#'), dict(type='voltage')),
               ('electronics', 'resistor', 'R1', ('A', 'E'), dict(R=('Rr', 1000.))),
               ('connectors', 'gyrator', 't', ('E', '#', 'B', '#'), dict(alpha=2.)),
               ('electronics', 'capacitor', 'C1', ('B', '#'), dict(C=1e-6))]}[which]
    mods = dict(electronics=electronics, mechanics=mechanics, connectors=connectors)
    with Scratch() as d:
        net = Netlist(d.path('g'), clear=True)
        for dic, comp, lab, nodes, args in comps:
            net.add_line(dict(dictionary=dic, component=comp, label=lab, nodes=nodes, arguments=dict(args)))
        net.write()
        g = Netlist(d.path('g')).to_graph()
        h = Graph(label='h')
        for dic, comp, lab, nodes, args in comps:
            h += getattr(mods[dic], comp.capitalize())(lab, nodes, **args)

        def edges(g):
            return sorted((str(a), str(b), sorted((str(k), str(q)) for k, q in e.items())) for a, b, e in
                          g.edges(data=True))
        s.expect('edges', edges(g) == edges(h), 'edges of the graph')
        s.expect('core', (g.core.x, g.core.w, g.core.u, g.core.cu, g.core.p) ==
                 (h.core.x, h.core.w, h.core.u, h.core.cu, h.core.p), 'variables of the graph')
        s.expect('subs', g.core.subs == h.core.subs, 'parameters of the graph')
        a, b = g.to_core(), h.to_core()
        s.prove_eq('H', a.H, b.H, what='energy')
        for i, (p, q) in enumerate(zip(a.z, b.z)):
            s.prove_eq('z%d' % i, p, q, what='dissipation law')
        s.expect('M', a.M.shape == b.M.shape, 'structure')
        for i in range(a.M.rows):
            for j in range(a.M.cols):
                s.prove_eq('M%d_%d' % (i, j), a.M[i, j], b.M[i, j], what='structure')


def words(s):
    """labels of parameters that are words of the Python language"""
    for w in SOFT:
        if w in ('None', 'True', 'False'):
            continue
        atoms = [Atom('num_v', text.NUMBER, kind='num'), Atom('lab', LABEL)]

        def body(v):
            with Scratch() as d:
                net = Netlist(d.path('a'), clear=True)
                net.add_line(dict(dictionary='electronics', component='resistor', label=v['lab'], nodes=('A', 'B'),
                                  arguments={'R': w, 'q': v['num_v']}))
                net.write()
                return plain(content(Netlist(d.path('a'))))
        text.explore(s, w, atoms, body, lambda v, r: r == plain([dict(
            dictionary='electronics', component='resistor', label=v['lab'], nodes=('A', 'B'),
            arguments={'R': w, 'q': v['num_v']})]))


def scenarios(tier):
    deep = tier == 'thorough'
    out = []
    kinds = 'nltpTFNim'
    for how in ('same', 'other', 'line'):
        for k in [''] + list(kinds) + [a + b for a in 'nltp' for b in 'nltp'] + ['ntl', 'tnp', 'lTt'] + (
                [''.join(p) for p in itertools.product('nltp', repeat=3)] if deep else []):
            if how != 'other' and (len(k) > 1 or k in FIXED) and not deep:
                continue
            out.append(('%s_%s' % (how, k or 'none'), roundtrip, dict(shape=[('ss', k)], how=how)))
        for nodes in ('s', 'sss', 'ssss', 'n', 'ns', 'sn', 'nn'):
            out.append(('%s_nodes_%s' % (how, nodes), roundtrip, dict(shape=[(nodes, 'n')], how=how)))
        out.append(('%s_empty' % how, roundtrip, dict(shape=[], how=how)))
        for a, b in (('', 'n'), ('t', ''), ('l', 'tn'), ('', '')) + ((('nt', 'lp'),) if deep else ()):
            out.append(('%s_two_%s_%s' % (how, a, b), roundtrip, dict(shape=[('ss', a), ('sn', b)], how=how)))
        out.append(('%s_three' % how, roundtrip, dict(shape=[('s', 't'), ('ss', ''), ('ss', 'l')], how=how)))
    base = ['a', 'd0', 'd1', 's0', 's1', '+', 'r']
    for n in (1, 2):
        for L in (1, 2, 3):
            for ops in itertools.product(base, repeat=L):
                size, ok = n, True
                for o in ops:
                    if o[0] in 'ds' and size == 0:
                        ok = False
                    size += (o in 'a+') - (o[0] == 'd')
                new = sum(o[0] in 'as+' for o in ops)
                if not ok or new + n > 5 or (
                        L == 3 and not deep and (len(set(ops)) < 3 or hash_(ops) % 24)) or (
                        L == 2 and n == 2 and not deep and hash_(ops) % 3):
                    continue
                out.append(('ops%d_%s' % (n, '_'.join(ops)), history, dict(ops=ops, n=n)))
    for w in ('rlc', 'nl', 'tr'):
        out.append(('graph_' + w, graph, dict(which=w)))
    out.append(('words', words, {}))
    return out


def hash_(ops):
    return sum((i + 1) * ord(c) for i, o in enumerate(ops) for c in o)
