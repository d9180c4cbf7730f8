"""C11: reordering and replacing unknown values preserve the value of a dataflow tree."""
from pv import core, trees, dfeval, designs, dfcheck
from pv.checks import c10, c12

PID = 'C11'
RULE = ('tree: a case is one generated dataflow tree evaluated before and after the transformation under 10 valuations, non-trivial '
        'if the tree holds a conditional below an operator, selection, concatenation or condition; undef: non-trivial if an unknown '
        'value or missing alternative occurs; design: a generated combinational module analysed without reordering, its reported '
        'trees before and after reordering compared with simulation')
ASSUMPTIONS = ['alternatives of a conditional have the same width']


class Trees(trees.Trees):
    def k_undef(self, d, w):
        n = self.fill or w or self.g.int(1, 8)
        if self.fill and self.g.bool(0.2):
            n = self.g.int(1, 8)
        return ['u', n] if w in (None, n) else None

    fill = None


def leaves(t):
    """Number of alternatives after reordering."""
    if t is None:
        return 1
    if t[0] == 'b':
        return leaves(t[1]) * (leaves(t[2]) + leaves(t[3]))
    n = 1
    for x in t[2] if t[0] == 'op' else t[1] if t[0] == 'c' else t[1:] if t[0] in 'pa' else ():
        if isinstance(x, list):
            n *= leaves(x)
    return n


def gen(g):
    for depth in (g.int(2, 4), 2, 1):
        hold = g.bool(0.2)
        t = Trees(g, undefined=not hold and g.bool(0.15))
        tree = t.latch(depth) if hold else t.expr(depth)
        if leaves(tree) <= 500:
            break
    else:
        tree = t.leaf()
    return dict(tree=tree, vals=[trees.valuation(g) for _ in range(10)], feat=sorted(t.feat) + (['hold'] if hold else []))


def branches(t, top=True):
    """Conditionals below something else than an alternative of a conditional."""
    if t is None:
        return 0
    c = type(t).__name__
    if c == 'DFBranch':
        return (not top) + branches(t.condnode, False) + branches(t.truenode, top) + branches(t.falsenode, top)
    return sum(branches(n, False) for n in t.children() if n is not None)


def signals(t):
    out, stack = set(), [t]
    while stack:
        x = stack.pop()
        if x is None:
            continue
        if type(x).__name__ == 'DFTerminal':
            out.add(str(x.name))
        stack.extend(x.children())
    return out


def check_normal(old, new, case=None):
    if branches(new):
        raise core.Violation('a conditional is left below an operator, selection, concatenation or condition\n%s\n%s' % (
            c10.text(old), c10.text(new)))
    if signals(new) != signals(old):
        raise core.Violation('signals %s become %s' % (sorted(signals(old)), sorted(signals(new))))


def agree(a, b):
    """Same width, and the bits known on both sides are equal (only a division by zero leaves unknown bits)."""
    return a[2] == b[2] and not (a[0] ^ b[0]) & ~(a[1] | b[1])


def filled(terms, tree, v, i):
    ev = Guess(terms, {}, trees.vals(v))
    ev.seed = i
    try:
        return ev.eval(tree)
    except dfeval.Hold:
        return None
    except dfeval.EvalError:
        return 'error'


class Guess(dfeval.Eval):
    """Some value for unknown values, the same for all of one width."""
    seed = 0

    def eval1(self, t):
        if type(t).__name__ == 'DFUndefined':
            return ((0x5a3c96f1 * (self.seed + 1) >> 7) & dfeval.mask(t.width), 0, t.width)
        return dfeval.Eval.eval1(self, t)


def oracle(case):
    from pyverilog.dataflow.reorder import reorder
    terms = trees.terms()
    tree = trees.build(case['tree'])
    if dfeval.size(tree, 400) >= 400:
        raise core.Inconclusive('tree too large')
    before = tree.tostr()
    new = reorder(tree)
    if tree.tostr() != before:
        raise core.Violation('reorder changed its argument\n%s\n%s' % (before, tree.tostr()))
    check_normal(tree, new)
    for i, v in enumerate(case['vals']):
        a, b = filled(terms, tree, v, i), filled(terms, new, v, i)
        if a == 'error':
            raise core.Inconclusive('no value')
        if b == 'error' or (a is None) != (b is None) or (a is not None and not agree(a, b)):
            raise core.Violation('reorder: value %s becomes %s for %s\n%s\n%s' % (a, b, v, c10.text(tree), c10.text(new)))
    again = reorder(new)
    if again != new:
        raise core.Violation('reordering again changes the tree\n%s\n%s' % (c10.text(new), c10.text(again)))
    case['moved'] = branches(tree)


# ---- replaceUndefined ------------------------------------------------------
def gen_undef(g):
    k = g.int(0, 4)
    r = dict(name=g.choice(['p', 'q', 's', 'r', 'w']))
    if k in (0, 4) and r['name'] in 'rw':
        r['name'] = 's'                # an index into an unknown value counts from 0
    if k == 1:
        msb, lsb = [x[1:3] for x in trees.SIGS if x[0] == r['name']][0]
        lo = g.int(lsb, msb)
        r.update(msb=g.int(lo, msb), lsb=lo)
    elif k == 2:
        r.update(name='m', ptr=g.int(0, 3))
    elif k == 3:
        r.update(name='m', ptr=g.int(0, 3), msb=g.int(1, 3), lsb=g.int(0, 1))
    elif k == 4:
        r['width'] = trees.width(['t', r['name']])
    t = Trees(g, undefined=True)
    hold = g.bool(0.5)
    t.fill = r['msb'] - r['lsb'] + 1 if 'msb' in r else trees.width(['t', r['name']])
    tree = t.latch(3) if hold else t.expr(g.int(1, 4))
    if k != 4 and widths(tree) - set([t.fill]):
        r['width'] = t.fill
    return dict(tree=tree, rep=r, vals=[trees.valuation(g) for _ in range(8)], feat=sorted(t.feat))


def widths(t):
    """Widths of the unknown values in a nested list."""
    if not isinstance(t, list):
        return set()
    if t[0] == 'u':
        return set([t[1]])
    return set().union(*[widths(x) if isinstance(x, list) and x and isinstance(x[0], str) else
                         set().union(*[widths(y) for y in x]) if isinstance(x, list) and x else set() for x in t])


class Filled(dfeval.Eval):
    """Reads the replacement wherever a value is missing."""
    fill = None
    only = None

    def missing(self, t):
        return t is None or (type(t).__name__ == 'DFUndefined' and self.only in (None, t.width))

    def eval1(self, t):
        if self.missing(t):
            return self.fill()
        return dfeval.Eval.eval1(self, t)

    def width1(self, t):
        if self.missing(t):
            return self.fill()[2]
        if type(t).__name__ == 'DFBranch':
            return max(self.width(t.truenode), self.width(t.falsenode))
        return dfeval.Eval.width1(self, t)


def has_missing(t):
    return t is not None and (t[0] == 'u' or (t[0] == 'b' and None in t[2:4]) or
                              any(has_missing(x) for x in (t[2] if t[0] == 'op' else t[1] if t[0] == 'c' else t[1:] if t[0] in 'pab' else ())
                                  if isinstance(x, list)))


def oracle_undef(case):
    import pyverilog.dataflow.dataflow as df
    from pyverilog.dataflow.replace import replaceUndefined
    terms = trees.terms()
    tree = trees.build(case['tree'])
    before = 'None' if tree is None else tree.tostr()
    r = case['rep']
    c = lambda k: df.DFEvalValue(r[k]) if k in r else None
    new = replaceUndefined(tree, trees.scope(r['name']), c('msb'), c('lsb'), c('ptr'), r.get('width'))
    if ('None' if tree is None else tree.tostr()) != before:
        raise core.Violation('replaceUndefined changed its argument\n%s\n%s' % (before, tree.tostr()))
    for v in case['vals']:
        try:
            ev = Filled(terms, {}, trees.vals(v))
            ev.only = r.get('width')
            ev.fill = lambda: ev.term(trees.scope(r['name']), r.get('msb'), r.get('lsb'), r.get('ptr'))
            want = ev.eval(tree)
        except dfeval.EvalError as e:
            raise core.Inconclusive(str(e))
        try:
            got = dfeval.Eval(terms, {}, trees.vals(v)).eval(new)
        except (dfeval.EvalError, dfeval.Hold) as e:
            raise core.Violation('no value after replaceUndefined %s: %r\n%s\n%s' % (r, e, before, c10.text(new)))
        if got != want:
            raise core.Violation('replaceUndefined %s: value %s, not %s for %s\n%s\n%s' % (r, got, want, v, before, c10.text(new)))
    case['missing'] = has_missing(case['tree'])


# ---- designs ---------------------------------------------------------------
def oracle_design(case):
    from pyverilog.dataflow.reorder import reorder
    rows = dfcheck.simulate(case['text'] + designs.tb_comb(case))
    a = dfcheck.analyze(case['text'], case['top'], noreorder=True)
    terms, binds = a.getTerms(), a.getBinddict()
    dfcheck.compare_comb(case, terms, binds, rows)
    new = {}
    for k, bs in binds.items():
        new[k] = []
        for b in bs:
            before = b.tree.tostr() if b.tree is not None else None
            t = reorder(b.tree)
            if b.tree is not None and b.tree.tostr() != before:
                raise core.Violation('reorder changed its argument\n%s' % before)
            check_normal(b.tree, t)
            new[k].append(type(b)(t, b.dest, b.msb, b.lsb, b.ptr, b.alwaysinfo, b.parameterinfo))
    dfcheck.compare_comb(case, terms, new, rows)


SUBS = [core.Sub('tree', gen, oracle, quick=20000, thorough=250000, nontrivial=lambda c: c.get('moved', 0) > 0,
                 labels=lambda c: c['feat'], show=lambda c: str(c['tree'])),
        core.Sub('undef', gen_undef, oracle_undef, quick=8000, thorough=100000, nontrivial=lambda c: bool(c.get('missing')),
                 labels=lambda c: c['feat'] + sorted(c['rep']), show=lambda c: str([c['tree'], c['rep']])),
        core.Sub('design', c12.gen, oracle_design, quick=500, thorough=8000, nontrivial=c12.nontrivial,
                 cpu=3, labels=lambda c: c['feat'], show=lambda c: c['text'])]
