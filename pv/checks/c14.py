"""C14: hierarchy, parameters and generate constructs elaborate as in Verilog."""
from pv import core, designs, dfcheck

PID = 'C14'
RULE = ('a case is one generated design of 2..4 modules, 6 states with one clock or reset event each, simulated and compared; '
        'non-trivial if it has an instance and a parameter override, or a generate construct')
ASSUMPTIONS = ['Icarus Verilog says what the design does', 'operands of matching width, no unknown values']
OPTS = ['comb', 'assign', 'seq', 'func', 'case', 'concat', 'cond', 'shift', 'split', 'lsb', 'lconcat',
        'shuffle', 'param', 'inst', 'gen', 'array', 'clocks', 'hierref', 'intparam', 'gate', 'implicit']

HIER = ['param', 'gen', 'hierref', 'intparam', 'seq']


def gen(g):
    opts = [o for o in OPTS if o in ('inst', 'assign') or g.bool(0.9 if o in HIER else 0.6)]
    d = designs.Design(g, opts, depth=2, maxitems=2)
    for i in range(g.int(1, 3)):
        d.bitmod = g.bool(0.4)
        d.module('m%d' % i)
    d.bitmod = False
    d.maxitems = 4
    top = d.module('top', True)
    return designs.events(g, designs.case(g, d, top, 6)) if top.clk else designs.case(g, d, top, 6)


def oracle(case):
    seq = 'events' in case
    rows = dfcheck.simulate(case['text'] + (designs.tb_seq if seq else designs.tb_comb)(case))
    a = dfcheck.analyze(case['text'], case['top'])
    (dfcheck.compare_seq if seq else dfcheck.compare_comb)(case, a.getTerms(), a.getBinddict(), rows)


def nontrivial(c):
    f = set(c['feat'])
    return {'inst', 'override'} <= f or bool({'genfor', 'genif'} & f)


SUBS = [core.Sub('hier', gen, oracle, quick=1200, thorough=20000, nontrivial=nontrivial,
                 cpu=4, labels=lambda c: c['feat'], show=lambda c: c['text'])]
