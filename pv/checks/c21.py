"""C21: the dataflow graph mirrors the dataflow tree."""
import re

from pv import core, dfcheck, dfeval, trees
from pv.checks import c16

PID = 'C21'
RULE = ('tree: a case is one generated dataflow tree drawn into a graph; design: one generated design, the graph of up to 3 signals under '
        'random options.  The graph is read back from its DOT text and compared with the tree.  Non-trivial: at least 5 tree elements.')
ASSUMPTIONS = ['generate() is asked for signals whose dotted name is their full name (no loop index, no hidden scope)', 'the graph is what its DOT text says', 'the walked and optimized tree itself is the subject of C10, C11 and C16']

TOK = re.compile(r'\s*("(?:[^"\\]|\\.|\\\n)*"|->|[\[\]{};,=]|[A-Za-z_\x80-\uffff0-9.\-]+)')


def unquote(s):
    if s.startswith('"'):
        return s[1:-1].replace('\\\n', '').replace('\\"', '"')
    return s


def read_dot(text):
    """({node: attributes}, [(tail, head, attributes)]) of a flat digraph."""
    pos, toks = 0, []
    text = text.strip()
    while pos < len(text):
        m = TOK.match(text, pos)
        if not m:
            raise core.HarnessError('DOT: %r' % text[pos:pos + 40])
        toks.append(m.group(1))
        pos = m.end()
    i = toks.index('{') + 1
    nodes, edges = {}, []
    while toks[i] != '}':
        if toks[i] == ';':
            i += 1
            continue
        a = toks[i]
        i += 1
        b = None
        if toks[i] == '->':
            b = unquote(toks[i + 1])
            i += 2
        at = {}
        if toks[i] == '[':
            i += 1
            while toks[i] != ']':
                if toks[i] == ',':
                    i += 1
                    continue
                at[toks[i]] = unquote(toks[i + 2])
                i += 3
            i += 1
        if a in ('node', 'graph', 'edge') and b is None:
            continue
        if b is None:
            nodes.setdefault(unquote(a), {}).update(at)
        else:
            edges.append((unquote(a), b, at))
    return nodes, edges


def label(t):
    c = type(t).__name__
    if c == 'DFTerminal':
        return t.name.tocode()
    if c == 'DFOperator':
        return t.operator
    if c in ('DFIntConst', 'DFFloatConst', 'DFStringConst'):
        return str(t.value)
    if c in ('DFEvalValue', 'DFUndefined'):
        if c == 'DFEvalValue' and t.isstring:
            return t.value
        v = 'x' if c == 'DFUndefined' else str(abs(t.value))
        s = '%s\'d%s' % ('' if t.width == 32 else t.width, v)
        return '(-%s)' % s if c == 'DFEvalValue' and t.value < 0 else s
    return {'DFPartselect': 'PartSelect', 'DFPointer': 'Pointer', 'DFConcat': 'Concat', 'DFBranch': 'Branch', 'DFDelay': 'Delay'}[c]


PARTS = {'DFPartselect': [('var', 'VAR'), ('msb', 'MSB'), ('lsb', 'LSB')], 'DFPointer': [('var', 'VAR'), ('ptr', 'PTR')],
         'DFBranch': [('condnode', 'COND'), ('truenode', 'TRUE'), ('falsenode', 'FALSE')]}
COLORS = {'MSB': 'orange', 'LSB': 'orange', 'PTR': 'orange', 'COND': 'blue', 'TRUE': 'green', 'FALSE': 'red'}


def parts(t):
    c = type(t).__name__
    if c in PARTS:
        return [(getattr(t, f), l) for f, l in PARTS[c] if getattr(t, f) is not None]
    return [(n, None) for n in t.children() if n is not None]


class Mirror(object):
    """Compares graph and tree.  DOT says nothing about the order of the edges of a node."""

    def __init__(self, text, identical, color):
        self.nodes, self.edges = read_dot(text)
        self.identical, self.color = identical, color
        self.out, self.into = {}, {}
        for a, b, at in self.edges:
            self.out.setdefault(a, []).append((b, at))
            self.into.setdefault(b, []).append(a)
            self.nodes.setdefault(a, {})
            self.nodes.setdefault(b, {})
        self.used = set()
        self.codes = {}

    def text(self, n):
        at = self.nodes[n]
        return n if at.get('label', r'\N') in (r'\N', '') else at['label']

    def fail(self, msg):
        raise core.Violation(msg)

    def graph_side(self, n, seen=()):
        """(label, parts) of the graph below node n."""
        if n in seen:
            self.fail('the graph has a loop at %r' % n)
        self.used.add(n)
        out = []
        for b, at in self.out.get(n, []):
            l = at.get('label')
            c = at.get('color', 'black')
            if c != 'black' if not self.color else l in COLORS and c != COLORS[l]:
                self.fail('edge %s of %s has color %r' % (l, self.text(n), c))
            if len(self.into[b]) > 1 and not (b in self.codes.values() and not self.identical):
                self.fail('node %r stands for %d elements' % (b, len(self.into[b])))
            out.append((l or '', self.graph_side(b, seen + (n,))))
        return (self.text(n), tuple(sorted(out)))

    def terminals(self, t):
        stack = [t]
        while stack:
            x = stack.pop()
            if x is None:
                continue
            if type(x).__name__ == 'DFTerminal':
                if label(x) in self.codes and self.codes[label(x)] != str(x.name):
                    raise core.Inconclusive('two signals with one label')
                self.codes[label(x)] = str(x.name)
            stack.extend(x.children())

    def tree_side(self, t):
        return (label(t), tuple(sorted((l or '', self.tree_side(p)) for p, l in parts(t))))

    def check(self, pairs):
        """pairs: node of a signal, its tree."""
        for _, t in pairs:
            self.terminals(t)
        self.codes = dict((v, k) for k, v in self.codes.items())     # signal -> its node
        for name, t in pairs:
            if name not in self.nodes:
                self.fail('no node %r' % name)
            got = self.graph_side(name)
            want = (self.text(name), (('', self.tree_side(t)),) if t is not None else ())
            if got != want:
                self.fail('the graph of %s is\n%s\nthe tree is\n%s' % (self.text(name), got, want))
        rest = [n for n in self.nodes if n not in self.used]
        if rest:
            self.fail('graph nodes %s mirror nothing' % rest[:5])


def gen_tree(g):
    t = trees.Trees(g, undefined=True)
    tree = t.latch(3) if g.bool(0.2) else t.expr(g.int(1, 4))
    return dict(tree=tree, identical=g.bool(), color=g.bool(0.3), feat=sorted(t.feat))


def oracle_tree(case):
    from pyverilog.dataflow.graphgen import VerilogGraphGenerator
    tree = trees.build(case['tree'])
    terms = trees.terms()
    gg = VerilogGraphGenerator('m', terms, {}, terms, {}, trees.constants(), 'x.png', withcolor=case['color'])
    gg.identical = case['identical']
    gg.add_node('root', label='the root')
    before = 'None' if tree is None else tree.tostr()
    gg.visit(tree, 'root')
    if tree is not None and tree.tostr() != before:
        raise core.Violation('drawing changed the tree')
    m = Mirror(gg.graph.string(), case['identical'], case['color'])
    m.check([('root', tree)])
    case['size'] = dfeval.size(tree)


def gen_design(g):
    c = c16.gen(g)
    c['pick'] = [g.int(0, 1000) for _ in range(g.int(1, 3))]
    c['opt'] = dict(identical=g.bool(), walk=g.bool(0.7), step=g.int(0, 2), do_reorder=g.bool(0.3))
    c['color'] = g.bool(0.3)
    return c


def oracle_design(case):
    from pyverilog.dataflow.graphgen import VerilogGraphGenerator
    from pyverilog.dataflow.optimizer import VerilogDataflowOptimizer, VerilogOptimizer
    from pyverilog.dataflow.walker import VerilogDataflowWalker
    from pyverilog.dataflow.reorder import reorder
    from pyverilog.dataflow.replace import replaceUndefined
    a = dfcheck.analyze(case['text'], case['top'])
    terms, binds = a.getTerms(), a.getBinddict()
    opt = VerilogDataflowOptimizer(terms, binds)
    opt.resolveConstant()
    args = (opt.getResolvedTerms(), opt.getResolvedBinddict(), opt.getConstlist())
    gg = VerilogGraphGenerator(case['top'], terms, binds, args[0], args[1], args[2], 'x.png', withcolor=case['color'])
    walker = VerilogDataflowWalker(case['top'], terms, binds, *args)
    o = case['opt']
    names = sorted(str(b) for b in binds if all(s.isPrintable() and s.scopeloop is None for s in b))
    if not names:
        raise core.Inconclusive('no signal that generate() can be told by name')
    bykey = dict((str(b), b) for b in binds)
    want = []
    for p in case['pick']:
        n = names[p % len(names)]
        if n in [x for x, _ in want] or terms[bykey[n]].dims is not None:
            continue
        tree = walker.getTree(bykey[n])
        if tree is None:
            continue
        if o['walk']:
            tree = walker.walkTree(tree, visited=set(), step=o['step'])
            if o['do_reorder']:
                if dfeval.size(tree, 300) >= 300:
                    raise core.Inconclusive('tree too large')
                tree = reorder(tree)
        tree = VerilogOptimizer(terms, args[2]).optimize(tree)
        if o['do_reorder']:
            tree = reorder(tree)
        want.append((n, replaceUndefined(tree, bykey[n])))
        gg.generate(n, **o)
    text = gg.graph.string()
    m = Mirror(text, o['identical'], case['color'])
    roots = [x for x in m.nodes if m.nodes[x].get('label') in dict(want) and re.search(r'_graphrename_\d+$', x)]
    pairs = []
    for n, t in want:
        r = [x for x in roots if m.nodes[x]['label'] == n]
        if len(r) != 1:
            raise core.Violation('%d nodes for the signal %s' % (len(r), n))
        pairs.append((r[0], t))
    m.check(pairs)
    case['size'] = sum(dfeval.size(t) for _, t in want)


SUBS = [core.Sub('tree', gen_tree, oracle_tree, quick=4000, thorough=50000, nontrivial=lambda c: c.get('size', 0) >= 5,
                 labels=lambda c: c['feat'], show=lambda c: str(c['tree'])),
        core.Sub('design', gen_design, oracle_design, quick=600, thorough=8000, nontrivial=lambda c: c.get('size', 0) >= 5, cpu=4,
                 labels=lambda c: c['feat'] + ['%s=%s' % x for x in sorted(c['opt'].items())], show=lambda c: c['text'])]
