"""C01: parsing yields exactly the AST the grammar prescribes."""
from pv import core, syntax
from pv.core import Sub, Violation

PID = 'C01'
RULE = ('A text is derived token by token from the Verilog-2001 grammar together with the tree it denotes; precedence and '
        'redundant parentheses are decided by an independent precedence-aware printer.  Non-trivial: distinct text with '
        'at least 25 tokens and at least 3 different constructs.')
ASSUMPTIONS = ['the grammar-directed generator in pv/syntax.py states IEEE 1364 correctly']


def gen_source(g):
    b = syntax.Gen(g, fuel=g.int(5, 90), opts=('bare_always',))
    exp = b.source()
    seps = syntax.layout(g, b.t, style=g.weighted([(3, 'space'), (2, 'mixed'), (1, 'tight')]))
    text, lines = syntax.join(b.t, seps)
    return dict(text=text, exp=syntax.resolve(exp, lines), n=len(b.t), feat=sorted(b.feat))


def gen_procs(g):
    b = syntax.Gen(g, emax=g.int(0, 2), opts=('bare_always',))
    exp = b.procs()
    seps = syntax.layout(g, b.t, style=g.weighted([(3, 'space'), (2, 'mixed'), (1, 'tight')]))
    text, lines = syntax.join(b.t, seps)
    return dict(text=text, exp=syntax.resolve(exp, lines), n=len(b.t), feat=sorted(b.feat))


def gen_expr(g):
    """One deep expression in an assignment."""
    b = syntax.Gen(g, fuel=g.int(5, 60))
    m = b.w('module')
    b.w('m')
    b.p(';')
    a = b.w('assign')
    x = b.w('y')
    b.p('=')
    e = b.expr(6)
    b.p(';')
    b.w('endmodule')
    seps = syntax.layout(g, b.t, style=g.weighted([(3, 'space'), (2, 'tight')]))
    text, lines = syntax.join(b.t, seps)
    return dict(text=text, exp=syntax.resolve(e, lines), n=len(b.t), feat=sorted(b.feat))


def oracle_source(case):
    ast = core.new_parser().parse(case['text'])
    try:
        syntax.compare(ast, case['exp'])
    except syntax.Diff as d:
        raise Violation('%s\n%s' % (d, case['text']))


def oracle_expr(case):
    ast = core.new_parser().parse(case['text'])
    items = ast.description.definitions[0].items
    if len(items) != 1:
        raise Violation('expected one item')
    try:
        syntax.compare(items[0].right.var, case['exp'])
    except syntax.Diff as d:
        raise Violation('%s\n%s' % (d, case['text']))


SUBS = [
    Sub('source', gen_source, oracle_source, quick=5600, nontrivial=lambda c: c['n'] >= 25 and len(c['feat']) >= 3,
        labels=lambda c: c['feat'], show=lambda c: c['text']),
    Sub('procs', gen_procs, oracle_source, quick=5600, nontrivial=lambda c: c['n'] >= 25 and len(c['feat']) >= 3,
        labels=lambda c: c['feat'], show=lambda c: c['text']),
    Sub('expr', gen_expr, oracle_expr, quick=5600, nontrivial=lambda c: c['n'] >= 20,
        labels=lambda c: c['feat'], show=lambda c: c['text']),
]
