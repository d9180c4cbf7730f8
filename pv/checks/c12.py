"""C12: the equations of combinational logic are the logic."""
from pv import core, designs, dfcheck

PID = 'C12'
RULE = ('a case is one generated module with 1..6 combinational items; non-trivial if it holds at least two of: always @*, '
        'if/else, case, for, function call, concatenation, conditional operator, partial assignment')
ASSUMPTIONS = ['Icarus Verilog says what the design does', 'operands of matching width, no latches, no unknown values']
OPTS = ['comb', 'assign', 'func', 'case', 'concat', 'cond', 'div', 'named', 'shift', 'split', 'lsb', 'lconcat',
        'readback', 'dynbit', 'plus', 'shuffle', 'for', 'param', 'casez', 'gate', 'implicit']


def gen(g):
    opts = [o for o in OPTS if o in ('comb', 'assign') or g.bool(0.8)]
    d = designs.Design(g, opts, depth=g.int(1, 3), maxitems=5)
    top = d.module('top', True)
    return designs.case(g, d, top, 10)


def oracle(case):
    rows = dfcheck.simulate(case['text'] + designs.tb_comb(case))
    a = dfcheck.analyze(case['text'], case['top'])
    dfcheck.compare_comb(case, a.getTerms(), a.getBinddict(), rows)


def nontrivial(c):
    return len(set(c['feat']) & {'comb', 'else', 'case', 'for', 'call', 'concat', 'cond', 'split', 'readback'}) >= 2


SUBS = [core.Sub('comb', gen, oracle, quick=1600, thorough=20000, nontrivial=nontrivial,
                 cpu=3, labels=lambda c: c['feat'], show=lambda c: c['text'])]
