"""C13: the dataflow of a register is its next state."""
from pv import core, designs, dfcheck

PID = 'C13'
RULE = ('a case is one generated clocked module, 10 states with one clock or reset event each; non-trivial if it has a reset '
        'and at least one of: case, else, array, split, temp, lconcat')
ASSUMPTIONS = ['Icarus Verilog says what the design does', 'operands of matching width, no unknown values',
               'two assignments of one block to the same array element in one step are not compared']
OPTS = ['comb', 'assign', 'seq', 'func', 'case', 'concat', 'cond', 'named', 'shift', 'split', 'lsb', 'lconcat',
        'plus', 'shuffle', 'param', 'casez', 'array', 'temp', 'clocks', 'dynbit', 'blocking', 'gate', 'implicit']


def gen(g):
    opts = [o for o in OPTS if o in ('seq', 'assign') or g.bool(0.7)]
    d = designs.Design(g, opts, depth=g.int(1, 2), maxitems=2)
    d.seqonly = True
    top = d.module('top', True)
    return designs.events(g, designs.case(g, d, top, 10))


def oracle(case):
    rows = dfcheck.simulate(case['text'] + designs.tb_seq(case))
    a = dfcheck.analyze(case['text'], case['top'])
    terms, binds = a.getTerms(), a.getBinddict()
    names = dfcheck.bykey(terms)
    for regs, (clk, edge, rst, redge) in case['seq']:
        for r in regs:
            for b in binds.get(names.get('top.' + r), ()):
                got = [str(b.getClockName()), b.getClockEdge(), b.getResetName() and str(b.getResetName()), b.getResetEdge()]
                want = ['top.' + clk, edge, rst and 'top.' + rst, redge]
                if got != want:
                    raise core.Violation('register %s: clock and reset %s, not %s' % (r, got, want))
    dfcheck.compare_seq(case, terms, binds, rows)


def nontrivial(c):
    return bool(set(c['feat']) & {'sync', 'async'} and set(c['feat']) & {'case', 'else', 'array', 'split', 'temp', 'lconcat'})


SUBS = [core.Sub('seq', gen, oracle, quick=1200, thorough=20000, nontrivial=nontrivial,
                 cpu=3, labels=lambda c: c['feat'], show=lambda c: c['text'])]
