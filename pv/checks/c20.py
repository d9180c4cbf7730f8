"""C20: identifier collection and renaming cover every occurrence exactly once."""
import copy

from pv import asttree, core, syntax
from pv.core import Sub, Violation

PID = 'C20'
RULE = ('a case is one source text of the C01 subset or one hand-built expression with shared sub-trees, and a renaming map (swaps, '
        'chains, new names); the reference is the field-by-field dump of pv/asttree.py.  Non-trivial: at least 3 identifier '
        'occurrences and a map that renames at least one of them.')
ASSUMPTIONS = ['a reference is an Identifier node; declared names, port names and scope labels are not references']


KEYWORDS = set('module endmodule input output inout reg wire begin end if else case casex casez endcase for while always assign integer real '
               'parameter localparam function endfunction task endtask initial default posedge negedge or signed generate endgenerate'.split())


def gen(g):
    b = syntax.Gen(g, fuel=g.int(3, 50), emax=g.int(0, 4))
    if g.bool(0.6):
        b.source(2)
    else:
        b.procs()
    names = sorted(set(t.s.strip() for t in b.t if t.k in 'we' and t.s not in KEYWORDS)) or ['a']
    return dict(text=syntax.join(b.t, syntax.layout(g, b.t))[0], map=mapping(g, names), share=g.bool(0.3), pick=g.int(0, 10 ** 6), n=len(b.t),
                feat=sorted(b.feat))


def mapping(g, names):
    ks = [n for n in names if g.bool(0.4)] or [g.choice(names)]
    k = g.int(0, 2)
    if k == 0:                         # permutation: swaps and chains
        return dict(zip(ks, g.perm(ks)))
    if k == 1:
        return dict((n, n + '_new') for n in ks)
    return dict((n, g.choice(names + ['fresh'])) for n in ks)


def occurrences(n, skip=()):
    """Identifier nodes on all paths (parameters of an instance list once)."""
    if isinstance(n, (list, tuple)):
        return [x for y in n for x in occurrences(y, skip)]
    if not asttree.is_node(n) or any(n is s for s in skip):
        return []
    c = type(n).__name__
    out = [n] if c == 'Identifier' else []
    for f in asttree.FIELDS[c]:
        v = getattr(n, f, None)
        out += occurrences(v, n.parameterlist if c == 'InstanceList' and f == 'instances' else skip if c == 'Instance' else ())
    return out


def rename(d, ids):
    """The dump after renaming."""
    if not isinstance(d, tuple):
        return d
    if d and d[0] == 'Identifier':
        return ('Identifier',) + tuple((f, ids.get(v, v) if f == 'name' else rename(v, ids)) for f, v in d[1:])
    return tuple(rename(x, ids) for x in d)


def lines(n):
    if isinstance(n, (list, tuple)):
        return tuple(lines(x) for x in n)
    if asttree.is_node(n):
        return (getattr(n, 'lineno', None),) + tuple(lines(getattr(n, f, None)) for f in asttree.FIELDS[type(n).__name__])
    return None


def subtree(root, k):
    nodes = [root]
    i = 0
    while i < len(nodes) and len(nodes) < 2000:
        nodes.extend(nodes[i].children())
        i += 1
    return nodes[k % len(nodes)]


def check(root, ids, what, text):
    from pyverilog.utils.identifiervisitor import getIdentifiers
    from pyverilog.utils.identifierreplace import replaceIdentifiers
    before, ls = asttree.dump(root), lines(root)
    occ = occurrences(root)
    got = getIdentifiers(root)
    if asttree.dump(root) != before:
        raise Violation('%s: getIdentifiers changed the tree' % what)
    hi, lo = {}, {}
    seen = set()
    for o in occ:
        hi[o.name] = hi.get(o.name, 0) + 1
        if id(o) not in seen:
            seen.add(id(o))
            lo[o.name] = lo.get(o.name, 0) + 1
    for n in set(got) | set(hi):
        if not lo.get(n, 0) <= got.count(n) <= hi.get(n, 0):
            raise Violation('%s: %r is reported %d times, occurs %d times\n%s' % (what, n, got.count(n), hi.get(n, 0), text))
    m = dict(ids)
    new = replaceIdentifiers(root, m)
    if m != ids:
        raise Violation('%s: replaceIdentifiers changed the map' % what)
    want = rename(before, ids)
    d = asttree.first_diff(want, asttree.dump(new))
    if d:
        raise Violation('%s: renaming %s: at %s\n%s' % (what, ids, d, text))
    if lines(new) != ls:
        raise Violation('%s: renaming %s changes line numbers\n%s' % (what, ids, text))
    return sum(o.name in ids for o in occ), len(occ)


def oracle(case):
    ast = core.new_parser().parse(case['text'])
    case['renamed'], case['occ'] = check(ast, case['map'], 'source', case['text'])
    ast = core.new_parser().parse(case['text'])
    part = subtree(ast, case['pick'])
    check(part, case['map'], type(part).__name__, case['text'])


# ---- hand-built, shared ----------------------------------------------------
def gen_hand(g):
    names = ['a', 'b', 'c', 'd']
    pool = []
    def node(d):
        if pool and g.bool(0.3):
            return ['ref', g.int(0, len(pool) - 1)]
        k = 'id' if d <= 0 else g.choice(['id', 'Plus', 'Land', 'Cond', 'Concat', 'Pointer', 'Partselect', 'Uminus', 'call', 'int', 'scoped'])
        if k in ('id', 'int'):
            t = [k, g.choice(names) if k == 'id' else str(g.int(0, 9))]
        elif k == 'scoped':
            t = [k, g.choice(names), [[g.choice(names), node(d - 1) if g.bool(0.4) else None] for _ in range(g.int(1, 2))]]
        else:
            n = {'Plus': 2, 'Land': 2, 'Cond': 3, 'Pointer': 2, 'Partselect': 3, 'Uminus': 1}.get(k) or g.int(1, 3)
            t = [k] + [node(d - 1) for _ in range(n)]
            if k in ('Pointer', 'Partselect') and g.bool():
                t[1] = ['id', g.choice(names)]
        pool.append(t)
        return t
    return dict(tree=node(g.int(1, 4)), pool=pool, map=mapping(g, names))


def oracle_hand(case):
    import pyverilog.vparser.ast as vast
    made = []
    def build(t):
        k = t[0]
        if k == 'ref':
            return made[t[1]] if t[1] < len(made) else vast.Identifier('z')
        if k == 'id':
            n = vast.Identifier(t[1])
        elif k == 'int':
            n = vast.IntConst(t[1])
        elif k == 'scoped':
            n = vast.Identifier(t[1], vast.IdentifierScope(tuple(
                vast.IdentifierScopeLabel(x, None if y is None else build(y)) for x, y in t[2])))
        elif k == 'call':
            n = vast.FunctionCall(vast.Identifier('f'), tuple(build(x) for x in t[1:]))
        elif k == 'Concat':
            n = vast.Concat([build(x) for x in t[1:]])
        else:
            n = getattr(vast, k)(*[build(x) for x in t[1:]])
        made.append(n)
        return n
    root = build(case['tree'])
    case['renamed'], case['occ'] = check(root, case['map'], 'hand-built', str(case['tree']))


def nontrivial(c):
    return c.get('occ', 0) >= 3 and c.get('renamed', 0) >= 1


SUBS = [Sub('source', gen, oracle, quick=4000, thorough=60000, nontrivial=nontrivial, labels=lambda c: c['feat'], show=lambda c: c['text']),
        Sub('hand', gen_hand, oracle_hand, quick=6000, thorough=60000, nontrivial=nontrivial, show=lambda c: str(c['tree']))]
