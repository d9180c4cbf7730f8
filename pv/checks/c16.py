"""C16: walking a signal back gives its combinational cone over registers and inputs."""
from pv import core, designs, dfcheck, dfeval

PID = 'C16'
RULE = ('a case is one generated design, walked back from every signal of the top module in a random order, 6 states; '
        'non-trivial if it has an intermediate combinational signal that is partly assigned, conditional, or in another instance')
ASSUMPTIONS = ['Icarus Verilog says what the design does', 'operands of matching width, no unknown values',
               'next values are compared for registers that are no arrays and are not assigned bit by variable bit']
OPTS = ['comb', 'assign', 'seq', 'func', 'case', 'concat', 'cond', 'shift', 'split', 'lsb', 'lconcat',
        'shuffle', 'param', 'inst', 'gen', 'array', 'clocks', 'hierref', 'named', 'temp', 'intparam', 'gate', 'implicit']


def gen(g):
    opts = [o for o in OPTS if o in ('assign',) or g.bool(0.9 if o == 'seq' else 0.6)]
    d = designs.Design(g, opts, depth=2, maxitems=2)
    if d.has('inst'):
        d.bitmod = g.bool(0.4)
        d.module('m0')
        if g.bool(0.3):
            d.module('m1')
        d.bitmod = False
    d.maxitems = 3
    top = d.module('top', True)
    case = designs.case(g, d, top, 6)
    return designs.events(g, case) if top.clk else case


class Walked(object):
    """trees of the walker in the order asked for"""

    def __init__(self, a, top, rnd):
        from pyverilog.dataflow.optimizer import VerilogDataflowOptimizer
        from pyverilog.dataflow.walker import VerilogDataflowWalker
        self.terms, self.binds = a.getTerms(), a.getBinddict()
        opt = VerilogDataflowOptimizer(self.terms, self.binds)
        opt.resolveConstant()
        self.walker = VerilogDataflowWalker(top, self.terms, self.binds, opt.getResolvedTerms(), opt.getResolvedBinddict(),
                                            opt.getConstlist())

    def walk(self, name, step):
        return self.walker.walkBind(str(name), step)


def oracle(case):
    seq = 'events' in case
    rows = dfcheck.simulate(case['text'] + (designs.tb_seq(case, True) if seq else designs.tb_comb(case)))
    a = dfcheck.analyze(case['text'], case['top'])
    terms, binds = a.getTerms(), a.getBinddict()
    names = dfcheck.bykey(terms)
    top = case['top']
    w = Walked(a, top, case['rnd'])
    inputs = set('%s.%s' % (top, n) for n in [n for n, _ in case['ins']] + case['clks'] + [case['rst']])
    step = rows[0::2] if seq else rows
    regs = dict((n, (wd, ar)) for n, wd, ar in case['regs'])
    order = sorted(case['obs'], key=lambda o: core.digest([o, case['rnd']]))
    trees = {}
    consts = dict((k, v) for k, v in binds.items() if terms[k].termtype & {'Parameter', 'Localparam'})
    for n, wd in order:
        key = names.get('%s.%s' % (top, n))
        if key is None:
            raise core.Violation('no term for signal %s' % n)
        if str(key) in inputs:
            continue
        trees[n] = w.walk(key, 0)
    for i, row in enumerate(step):
        # no other bindings: all but constants, registers and inputs is unknown
        ev = dfeval.Eval(terms, consts, dfcheck.actual(dfcheck.valuation(case, i), names))
        for (n, wd), want in zip(case['obs'], row):
            if want is None or n not in trees or n in regs:
                continue
            compare(ev, n, wd, trees[n], want, i, case)


    if seq:
        after(case, names, terms, binds, consts, w, rows[1::2])


def after(case, names, terms, binds, consts, w, rows):
    """The tree of a register is its next value; walking over one register
    gives the values one clock later."""
    top = case['top']
    keys = dict((n, names['%s.%s' % (top, n)]) for n, _, _ in case['regs'] if '%s.%s' % (top, n) in names)
    regs = [(n, wd) for n, wd, ar in case['regs'] if not ar and n in keys and binds.get(keys[n])]
    trees = dict((n, w.walk(keys[n], 0)) for n, wd in regs)
    inputs = [n for n, _ in case['ins']] + case['clks'] + [case['rst']]
    whole = not any(ar for _, _, ar in case['regs']) and len(regs) == len(case['regs'])
    nexts = dict((n, w.walk(names['%s.%s' % (top, n)], 1)) for n, wd in case['obs'] if whole and n not in inputs)
    for i, row in enumerate(rows):
        before, full = dfcheck.around(case, terms, binds, i, names)
        ev = dfcheck.around(case, terms, binds, i, names, consts)[1]
        fired = set(n for n, wd in regs if dfcheck.fires(before, full, binds[keys[n]][0]))
        k = 0
        want = {}
        for n, wd, ar in case['regs']:
            want[n] = row[k]
            k += ar or 1
        for n, wd in regs:
            if n in fired and want[n] is not None:
                compare(ev, n, wd, trees[n], want[n], i, case)
        if whole and len(fired) == len(regs):
            for (n, wd), v in zip(case['obs'], row[k:]):
                if n in nexts and n not in keys and v is not None:
                    compare(full, n + ' one clock later', wd, nexts[n], v, i, case)


def compare(ev, n, wd, tree, want, i, case):
    try:
        b, x, ew = ev.eval(tree)
    except (dfeval.EvalError, dfeval.Loop, dfeval.Hold) as e:
        raise core.Violation('%s: no value: %s %r\n%s' % (n, type(e).__name__, str(e), tree.tostr()[:1500]))
    b, x, _ = dfeval.ext((b, x, ew), wd)
    if x or b != want:
        raise core.Violation('%s = %s, simulation says %s (vector %d: %s)\n%s' % (
            n, dfcheck.bits(b, x, wd), format(want, '0%db' % wd), i, dict(case['vecs'][i]), tree.tostr()[:1500]))


def nontrivial(c):
    f = set(c['feat'])
    return bool(f & {'split', 'lconcat', 'inst', 'else', 'case', 'genfor'})


SUBS = [core.Sub('walk', gen, oracle, quick=800, thorough=15000, nontrivial=nontrivial,
                 cpu=4, labels=lambda c: c['feat'], show=lambda c: c['text'])]
