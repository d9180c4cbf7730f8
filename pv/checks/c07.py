"""C07: AST equality is structural, symmetric and consistent with hashing and traversal."""
import copy
import io

from pv import asttree, core, syntax
from pv.core import Sub, Violation

PID = 'C07'
RULE = ('Trees of the C01 subset, compared with the tree of the same tokens in another layout, with copies that differ in one '
        'random place (attribute, kind, child removed, added, replaced, moved or swapped), and sub-trees of one tree with each '
        'other; the reference is the field-by-field dump of pv/asttree.py.  Non-trivial: distinct case with at least 15 tokens.')
ASSUMPTIONS = ['the fields listed in pv/asttree.py are all that a node says besides line numbers']

# the loop index of a scope label is an attribute of the label, not a sub-node
NOT_CHILDREN = {('IdentifierScopeLabel', 'loop'), ('Port', 'dimensions')}


def gen(g):
    b = syntax.Gen(g, fuel=g.int(3, 40), emax=g.int(0, 3), opts=('bare_always',))
    if g.bool():
        b.source(2)
    else:
        b.procs()
    texts = [syntax.join(b.t, syntax.layout(g, b.t))[0] for _ in range(2)]
    muts = [[g.int(0, 10 ** 6), g.int(0, 7), g.int(0, 10 ** 6)] for _ in range(g.int(1, 3))]
    pairs = [[g.int(0, 10 ** 6), g.int(0, 10 ** 6)] for _ in range(12)]
    return dict(texts=texts, muts=muts, pairs=pairs, n=len(b.t), feat=sorted(b.feat))


def nodes_of(n, out):
    if isinstance(n, (list, tuple)):
        for x in n:
            nodes_of(x, out)
    elif asttree.is_node(n):
        out.append(n)
        for f in asttree.FIELDS[type(n).__name__]:
            nodes_of(getattr(n, f, None), out)
    return out


def mutate(vast, root, m):
    nodes = nodes_of(root, [])
    n = nodes[m[0] % len(nodes)]
    fields = asttree.FIELDS[type(n).__name__]
    kind, k = m[1], m[2]
    if not fields:
        return
    f = fields[k % len(fields)]
    v = getattr(n, f, None)
    if kind == 0:                       # another spelling
        if isinstance(v, str):
            setattr(n, f, v + 'q')
        elif isinstance(v, bool):
            setattr(n, f, not v)
    elif kind == 1:                     # a list loses its last / first element
        if isinstance(v, (list, tuple)) and v:
            setattr(n, f, type(v)(list(v)[:-1]) if k % 2 else type(v)(list(v)[1:]))
    elif kind == 2:                     # an element twice
        if isinstance(v, (list, tuple)) and v:
            i = k % len(v)
            setattr(n, f, type(v)(list(v)[:i] + [v[i]] + list(v)[i:]))
    elif kind == 3:                     # two elements change places
        if isinstance(v, (list, tuple)) and len(v) > 1:
            v = list(v)
            i = k % (len(v) - 1)
            v[i], v[i + 1] = v[i + 1], v[i]
            setattr(n, f, tuple(v))
    elif kind == 4:                     # an optional part goes away
        if asttree.is_node(v) and f in ('ldelay', 'rdelay', 'width', 'dimensions', 'scope', 'false_statement', 'array',
                                        'pre', 'post', 'cond', 'value', 'second', 'argname', 'loop', 'sig'):
            setattr(n, f, None)
    elif kind == 5:                     # two members of the same node change places
        g = fields[(k // 7) % len(fields)]
        w = getattr(n, g, None)
        if (asttree.is_node(v) or v is None) and (asttree.is_node(w) or w is None):
            setattr(n, f, w)
            setattr(n, g, v)
    elif kind == 6:                     # another kind of node with the same fields
        c = type(n).__name__
        same = sorted(x for x in asttree.FIELDS if asttree.FIELDS[x] == fields and hasattr(vast, x))
        n.__class__ = getattr(vast, same[k % len(same)])
    elif kind == 7:                     # a sub-tree from elsewhere
        if asttree.is_node(v):
            setattr(n, f, copy.deepcopy(nodes[k % len(nodes)]))


def check_pair(a, b, what):
    da, db = asttree.dump(a), asttree.dump(b)
    want = da == db
    for x, y in ((a, b), (b, a)):
        if (x == y) != want:
            raise Violation('%s: == says %s for %s and %s (%s)' % (
                what, x == y, asttree.cut(da), asttree.cut(db), asttree.first_diff(da, db)))
        if (x != y) == want:
            raise Violation('%s: != says %s' % (what, x != y))
    if want and hash(a) != hash(b):
        raise Violation('%s: equal trees with different hashes: %s' % (what, asttree.cut(da)))


def walk(n, out):
    out.append(n)
    ch = n.children()
    if not isinstance(ch, tuple):
        raise Violation('children() of %s is %r' % (type(n).__name__, ch))
    for c in ch:
        walk(c, out)
    return out


def check_traversal(root):
    for n in nodes_of(root, []):
        want = []
        for f in asttree.FIELDS[type(n).__name__]:
            if (type(n).__name__, f) in NOT_CHILDREN:
                continue
            v = getattr(n, f, None)
            if isinstance(v, (list, tuple)):
                want.extend(x for x in v if asttree.is_node(x))
            elif asttree.is_node(v):
                want.append(v)
        got = list(n.children())
        if sorted(map(id, got)) != sorted(map(id, want)):
            raise Violation('children of %s: %s expected, got %s' % (
                type(n).__name__, [type(x).__name__ for x in want], [type(x).__name__ for x in got]))
        for f in asttree.FIELDS[type(n).__name__]:
            v = getattr(n, f, None)
            if isinstance(v, (list, tuple)) and v:
                pos = [[id(x) for x in got].index(id(x)) for x in v if asttree.is_node(x)]
                if pos != sorted(pos):
                    raise Violation('children of %s are out of order' % type(n).__name__)


def check_show(root, text):
    """The printed tree lists every node once, in traversal order."""
    buf = io.StringIO()
    root.show(buf=buf)
    got = [l.strip().split(':')[0] for l in buf.getvalue().split('\n') if l.strip()]
    want = [type(n).__name__ for n in walk(root, [])]
    if got != want:
        raise Violation('show() lists %d nodes, the tree has %d\n%s' % (len(got), len(want), text))


def oracle(case):
    import pyverilog.vparser.ast as vast
    a = core.new_parser().parse(case['texts'][0])
    b = core.new_parser().parse(case['texts'][1])
    da = asttree.dump(a)
    if da != asttree.dump(b):
        raise core.Inconclusive('decided by C06')
    check_pair(a, b, 'other layout')
    check_pair(a, copy.deepcopy(a), 'copy')
    check_pair(a, a, 'itself')
    c = copy.deepcopy(b)
    for m in case['muts']:
        mutate(vast, c, m)
        check_pair(a, c, 'changed copy of\n%s\n' % case['texts'][0])
    nodes = nodes_of(a, [])
    for i, j in case['pairs']:
        check_pair(nodes[i % len(nodes)], nodes[j % len(nodes)], 'sub-trees of\n%s\n' % case['texts'][0])
    for other in (None, 0, 'a', (), vast.Identifier('zz')):
        for n in nodes[:5]:
            if n == other or not (n != other):
                if not (asttree.is_node(other) and asttree.dump(n) == asttree.dump(other)):
                    raise Violation('%s equals %r' % (type(n).__name__, other))
    check_traversal(a)
    check_show(a, case['texts'][0])
    if asttree.dump(a) != da:
        raise Violation('comparing or showing changed the tree')


SUBS = [
    Sub('trees', gen, oracle, quick=6000, nontrivial=lambda c: c['n'] >= 15, labels=lambda c: c['feat'],
        show=lambda c: c['texts'][0]),
]
