"""C23: the code text of terms and bindings is the design, flattened."""
import re

from pv import core, designs, dfcheck, sim

PID = 'C23'
RULE = ('a case is one generated design; the code texts of its terms and bindings (all of them, or those of a subset) are put into one '
        'module, which is simulated next to the design.  Non-trivial: a clocked design, or one with an instance or generate construct')
ASSUMPTIONS = ['Icarus Verilog says what a design does', 'operands of matching width, no unknown values',
               'no part of an expression is selected (Verilog has no syntax for it): no concatenated destinations, no functions',
               'at most one assignment of an array has a variable index',
               'names of nested scopes joined by _ do not collide']
OPTS = ['comb', 'assign', 'seq', 'case', 'concat', 'cond', 'shift', 'split', 'lsb', 'named', 'casez',
        'shuffle', 'param', 'inst', 'gen', 'array', 'clocks', 'intparam', 'gate', 'implicit', 'lconcat', 'dynbit', 'plus', 'temp', 'for', 'div', 'func', 'readback', 'hierref']
KEEP = ('inst', 'assign', 'seq')


def gen(g):
    opts = [o for o in OPTS if g.bool(0.9 if o in KEEP else 0.6)]
    if 'comb' not in opts and 'assign' not in opts:
        opts.append('assign')
    d = designs.Design(g, opts, depth=2, maxitems=2)
    if 'inst' in opts:
        for i in range(g.int(1, 2)):
            d.bitmod = g.bool(0.4)
            d.module('m%d' % i)
        d.bitmod = False
    d.maxitems = 4
    top = d.module('top', True)
    case = designs.case(g, d, top, 6)
    if top.clk:
        designs.events(g, case)
    case['mode'] = g.choice(['all', 'entire', 'subset'])
    obs = [n for n, w in case['obs'] if n not in dict(case['ins'])] 
    if not obs:
        case['mode'] = 'all'
        obs = [case['obs'][0][0]]
    case['targets'] = [obs[g.int(0, len(obs) - 1)] for _ in range(g.int(1, 2))]
    return case


def codes(case):
    """Declarations, constants and bindings as code, plus the names of the terms."""
    a = dfcheck.analyze(case['text'], case['top'])
    terms, binds = a.getTerms(), a.getBinddict()
    if case['mode'] == 'all':
        from pyverilog.utils import signaltype
        const = [k for k, t in terms.items() if signaltype.isParameter(t.termtype) or signaltype.isLocalparam(t.termtype)]
        decl = [(k, t) for k, t in terms.items() if k not in const]
        par = [b for k in binds if k in const for b in binds[k]]
        rest = [b for k in binds if k not in const for b in binds[k]]
    else:
        from pyverilog.dataflow.optimizer import VerilogDataflowOptimizer
        from pyverilog.dataflow.subset import VerilogSubset
        o = VerilogDataflowOptimizer(terms, binds)
        o.resolveConstant()
        s = VerilogSubset(case['top'], terms, binds, o.getResolvedTerms(), o.getResolvedBinddict(), o.getConstlist())
        s.set_clock_info('none', 'posedge')
        if case['mode'] == 'entire':
            r = s.getEntire()
        else:
            r = s.getSubset(['%s.%s' % (case['top'], n) for n in case['targets']])
        decl = list(r[0].items())
        par = list(r[1].values())
        rest = [b for d in r[2:] for bs in d.values() for b in bs]
    for k, t in terms.items():
        # the order of writes to one element is lost when each has its own block
        if t.dims is not None and len(binds.get(k, [])) > 1 and not all(re.match(r"(\d*'d)?\d+$", b.ptr.tocode()) for b in binds[k]):
            raise core.Inconclusive('several writes to one array')
    return terms, binds, decl, [t.tocode() for k, t in decl], [b.tocode() for b in par], [b.tocode() for b in rest]


def oracle(case):
    rows = dfcheck.simulate(case['text'] + tb(case))
    terms, binds, decl, dcode, par, rest = codes(case)
    from pyverilog.utils import util
    names = dfcheck.bykey(terms)
    top = case['top']

    def flat(n):
        k = names.get('%s.%s' % (top, n))
        return util.toFlatname(k) if k is not None else None
    have = set(util.toFlatname(k) for k, t in decl)
    full = case['mode'] != 'subset'
    want = dict((n, flat(n)) for n in columns(case))
    # a signal that is never assigned has an empty cone
    targets = [n for n in case['targets'] if names.get('%s.%s' % (top, n)) in binds]
    for n in targets:
        if flat(n) not in have:
            raise core.Violation('%s of the requested signal %s is not declared' % (flat(n), n))
    if full and not set(want.values()) <= have:
        raise core.Violation('not declared: %s' % sorted(map(str, set(want.values()) - have)))
    ports = [c for c in dcode if re.match(r'(input|output|inout)\b', c)]
    pnames = [re.split(r'\W+', c.strip().rstrip(';'))[-1] for c in ports]
    text = 'module %s(%s);\n%s%s%sendmodule\n' % (top, ', '.join(pnames), ''.join(par), ''.join(dcode), ''.join(rest))
    shown = [n for n in columns(case) if want[n] in have] if full else targets
    if not shown:
        return
    bench = tb(case, lambda n: want[n] if n in want else flat(n), have, pnames, shown)
    try:
        got = sim.table(sim.compile_and_run(sim.started(text) + bench))
    except sim.Bad as e:
        raise core.Violation('the code is no Verilog design: %s\n%s\n--- of\n%s' % (e, text, case['text']))
    pos = dict((n, i) for i, n in enumerate(columns(case)))
    if len(got) != len(rows):
        raise core.Violation('the code simulates %d states instead of %d\n%s' % (len(got), len(rows), text))
    for i, (r, q) in enumerate(zip(rows, got)):
        for n, v in zip(shown, q):
            w = r[pos[n]]
            if w is not None and v != w:
                raise core.Violation('line %d: %s is %s in the design, but %s is %s in the code\n%s\n--- of\n%s' % (
                    i, n, w, want.get(n), v, text, case['text']))


def columns(case):
    return [n for n, w in case['obs']]


def tb(case, name=lambda n: n, have=None, ports=None, shown=None):
    """Stimulus of all vectors; prints the observed signals before and after each event."""
    top = case['top']
    out = ['module pvtb;', 'reg go = 0;']
    conn = []
    ctl = case['clks'] + ([case['rst']] if case['rst'] else [])
    for n, w in case['ins'] + [(n, 1) for n in ctl]:
        out.append('reg [%d:0] %s = 0;' % (w - 1, n))
        if have is None or name(n) in ports:
            conn.append('.%s(%s)' % (name(n), n))
    out.append('%s dut(%s);' % (top, ', '.join(conn)))
    out.append('initial begin\n#1 go = 1;')
    cols = shown if shown is not None else columns(case)
    disp = '$display("@ %s", %s);' % (' '.join(['%b'] * len(cols)), ', '.join('dut.' + name(n) for n in cols))
    for i, v in enumerate(case['vecs']):
        if 'events' in case:
            for n in ctl:
                out.append('%s = %d;' % (n, case['events'][i]['level'][n]))
        for n, w in case['ins']:
            out.append("%s = %d'd%d;" % (n, w, v[n]))
        out.append('#1;')
        for n, w, a in case['regs']:
            f = name(n)
            if have is not None and f not in have:
                continue
            x = case['states'][i][n]
            for j, y in enumerate(x) if a else [(None, x)]:
                out.append("dut.%s%s = %d'd%d;" % (f, '' if j is None else '[%d]' % j, w, y))
        out.append(designs.SETTLE)
        out.append(disp)
        if 'events' in case:
            out.append('%s = !%s;' % (case['events'][i]['flip'], case['events'][i]['flip']))
            out.append(designs.SETTLE)
            out.append(disp)
    out.append('$finish;\nend\nendmodule\n')
    return '\n'.join(out)


def nontrivial(c):
    f = set(c['feat'])
    return bool(c['rst'] or f & {'inst', 'genfor', 'genif'})


SUBS = [core.Sub('flat', gen, oracle, quick=1200, thorough=20000, nontrivial=nontrivial,
                 cpu=4, labels=lambda c: c['feat'] + [c['mode']], show=lambda c: c['text'])]
