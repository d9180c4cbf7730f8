"""C10: optimizing a dataflow tree never changes its value."""
from pv import core, trees, dfeval

PID = 'C10'
RULE = ('a case is one generated dataflow tree over 14 signals, evaluated before and after optimization under 10 valuations; '
        'non-trivial if optimization changed the tree')
ASSUMPTIONS = ['the width of a node is that of its widest operand', 'no constant subexpression exceeds the width of its operands']


def gen(g):
    hold = g.bool(0.1)
    t = trees.Trees(g, undefined=not hold and g.bool(0.15))
    tree = t.latch(3) if hold else t.expr(g.int(1, 4))
    return dict(tree=tree, vals=[trees.valuation(g) for _ in range(10)], feat=sorted(t.feat))


def value(terms, tree, v):
    """(bits, unknown bits, width), or None if the tree holds the old value."""
    ev = dfeval.Eval(terms, {}, trees.vals(v))
    try:
        return ev.eval(tree)
    except dfeval.Hold:
        return None


def refines(old, new):
    """new may fix unknown bits of old, nothing else."""
    if old is None or new is None:
        if old is not None and old[1]:      # an unknown condition above a branch without value
            return True
        return old is None and new is None
    b, x, w = old
    nb, nx, nw = new
    m = dfeval.mask(max(w, nw)) & ~x
    return (nx & m) == 0 and (b & m) == (nb & m)


def text(t):
    return 'none' if t is None else t.tostr()[:1500]


def check(terms, old, new, vs, what):
    for v in vs:
        try:
            a = value(terms, old, v)
        except dfeval.EvalError as e:
            raise core.Inconclusive(str(e))
        try:
            b = value(terms, new, v)
        except dfeval.EvalError as e:
            raise core.Violation('%s: no value: %s\n%s\n%s' % (what, e, text(old), text(new)))
        if not refines(a, b):
            raise core.Violation('%s: value %s becomes %s for %s\n%s\n%s' % (what, a, b, v, text(old), text(new)))


def oracle(case):
    from pyverilog.dataflow.optimizer import VerilogOptimizer
    terms = trees.terms()
    tree = trees.build(case['tree'])
    before = tree.tostr()
    opt = VerilogOptimizer(terms, trees.constants())
    new = opt.optimize(tree)
    if tree.tostr() != before:
        raise core.Violation('optimize changed its argument\n%s\n%s' % (before, tree.tostr()))
    check(terms, tree, new, case['vals'], 'optimize')
    check(terms, tree, VerilogOptimizer(terms, trees.constants()).optimizeConstant(tree), case['vals'], 'optimizeConstant')
    again = opt.optimize(new)
    check(terms, tree, again, case['vals'], 'optimize twice')
    case['changed'] = new is None or new.tostr() != before


def nontrivial(c):
    return c.get('changed', False)


SUBS = [core.Sub('tree', gen, oracle, quick=25000, thorough=300000, nontrivial=nontrivial,
                 labels=lambda c: c['feat'] + (['changed'] if c.get('changed') else []), show=lambda c: str(c['tree']))]
