"""C04: every syntax node carries the source lines where its construct starts and ends."""
from pv import core, syntax
from pv.core import Sub, Violation

PID = 'C04'
RULE = ('Texts of the C01 subset laid out with random line breaks, comments and directives; the expected line of every node '
        'is the line of the first token of its construct, and the expected end line that of its last token.  Non-trivial: '
        'distinct text with at least 25 tokens on at least 8 lines.')
ASSUMPTIONS = ['the token positions recorded by the generator in pv/syntax.py']


def lay(g, b, exp):
    seps = syntax.layout(g, b.t, style=g.weighted([(2, 'lines'), (3, 'mixed'), (3, 'wild')]), directives=True)
    text, lines = syntax.join(b.t, seps)
    return dict(text=text, exp=syntax.resolve(exp, lines), n=len(b.t), nl=text.count('\n'), feat=sorted(b.feat))


def gen_source(g):
    b = syntax.Gen(g, fuel=g.int(5, 60))
    return lay(g, b, b.source())


def gen_procs(g):
    b = syntax.Gen(g, emax=g.int(0, 2))
    return lay(g, b, b.procs())


def oracle(case):
    ast = core.new_parser().parse(case['text'])
    try:
        syntax.compare(ast, case['exp'], lines=True)
    except syntax.Diff as d:
        raise Violation('%s\n%s' % (d, case['text']))


NT = lambda c: c['n'] >= 25 and c['nl'] >= 8
SUBS = [
    Sub('source', gen_source, oracle, quick=4000, nontrivial=NT, labels=lambda c: c['feat'], show=lambda c: c['text']),
    Sub('procs', gen_procs, oracle, quick=4000, nontrivial=NT, labels=lambda c: c['feat'], show=lambda c: c['text']),
]
