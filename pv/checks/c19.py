"""C19: a subset of a design is the fan-in cone of the requested signals."""
from pv import core, dfcheck, netlist
from pv.checks import c15, c16

PID = 'C19'
RULE = ('a case is one generated design (expressions, registers with several clocks and resets, arrays, functions, instances, generate '
        'constructs, declarations of all kinds) and 1-3 requested signals; the reported signals and bindings are compared with the closure '
        'of the binding relation.  Non-trivial: the cone has at least 3 signals and is not the whole design.')
ASSUMPTIONS = ['the bindings themselves are the subject of C12-C14', 'the clock named by set_clock_info is provided by the environment and needs no cone',
               'signals are requested by their dotted name, so none inside a generate loop']


def gen(g):
    k = g.choice(['walk', 'walk', 'hier', 'net', 'net', 'net'])
    c = c16.gen(g) if k == 'walk' else c15.gen(g) if k == 'hier' else dict(text=netlist.gen(g), top='top')
    return dict(text=c['text'], top=c['top'], picks=[g.int(0, 1 << 20) for _ in range(g.choice([1, 1, 2, 3]))],
                clock=g.choice([None, None, 'clk', 'clk2', 'CLK']), style=g.int(0, 2), again=g.bool(0.3))


CHILD = {'DFBranch': ('condnode', 'truenode', 'falsenode'), 'DFOperator': ('nextnodes',), 'DFPartselect': ('var', 'msb', 'lsb'),
         'DFPointer': ('var', 'ptr'), 'DFConcat': ('nextnodes',), 'DFDelay': ('nextnode',), 'DFSyscall': ('nextnodes',)}


def names(t):
    """names of the terminals of a tree"""
    out, todo = set(), [t]
    while todo:
        t = todo.pop()
        if t is None:
            continue
        if isinstance(t, (tuple, list)):
            todo += list(t)
            continue
        c = type(t).__name__
        if c == 'DFTerminal':
            out.add(t.name)
        for f in CHILD.get(c, ()):
            todo.append(getattr(t, f))
    return out


def closure(targets, terms, binds, clock):
    """signals that influence the targets (the targets only if they do), and the bindings of all of them"""
    reached, todo, done = set(), list(targets), set()
    while todo:
        n = todo.pop()
        if n in done:
            continue
        done.add(n)
        srcs = set()
        t = terms[n]
        srcs |= names([t.msb, t.lsb, t.dims])
        for b in binds.get(n, ()):
            srcs |= names([b.msb, b.lsb, b.ptr, b.tree])
            if b.isClockEdge() and str(b.getClockName()) != clock:
                srcs.add(b.getClockName())
        reached |= srcs
        todo += list(srcs)
    return reached, dict((n, list(binds[n])) for n in done if binds.get(n))


def diff(what, got, want):
    got, want = sorted(map(str, got)), sorted(map(str, want))
    if got != want:
        raise core.Violation('%s: missing %s, unexpected %s%s' % (what, [x for x in want if x not in got][:6], [x for x in got if x not in want][:6],
                                                                  ', repeated' if sorted(set(got)) == sorted(set(want)) else ''))


def kind(types, b):
    for k, r in (('Wire', 'assign'), ('Reg', None), ('Integer', None), ('Parameter', 'parameter'), ('Localparam', 'parameter'), ('Genvar', 'genvar')):
        if k in types:
            return r or ('clockedge' if b.isClockEdge() else 'combination')
    return 'assign'


def oracle(case):
    from pyverilog.dataflow.optimizer import VerilogDataflowOptimizer
    from pyverilog.dataflow.subset import VerilogSubset
    a = dfcheck.analyze(case['text'], case['top'])
    terms, binds = a.getTerms(), a.getBinddict()
    if len(terms) > 300:
        raise core.Inconclusive('large')
    opt = VerilogDataflowOptimizer(terms, binds)
    opt.resolveConstant()
    sub = VerilogSubset(case['top'], terms, binds, opt.getResolvedTerms(), opt.getResolvedBinddict(), opt.getConstlist())
    clock = '%s.CLK' % case['top']
    if case['clock']:
        sub.set_clock_info(case['clock'], 'posedge')
        clock = '%s.%s' % (case['top'], case['clock'])
    plain = [n for n in terms if all(s.scopeloop is None for s in n) and '.'.join(s.scopename for s in n) == str(n)]
    if not plain:
        raise core.Inconclusive('no signal')
    targets = []
    for p in case['picks']:
        n = plain[p % len(plain)]
        if n not in targets:
            targets.append(n)
    asked = [str(n) if case['style'] == 0 else [s.scopename for s in n] if case['style'] == 1 else tuple(s.scopename for s in n) for n in targets]
    want, wantbinds = closure(targets, terms, binds, clock)
    case['cone'] = [len(want | set(targets)), len(terms)]
    if case['again']:
        sub.getBindSourceSubset(asked[:1])
    got, srcs = sub.getBindSourceSubset(asked)
    diff('signals of %s' % asked, [n for n in srcs if n not in targets], [n for n in want if n not in targets])
    diff('bound signals of %s' % asked, got, wantbinds)
    for n in got:
        diff('bindings of %s for %s' % (n, asked), [b.tostr() for b in got[n]], [b.tostr() for b in wantbinds[n]])
    ts, par, assign, clk, comb = sub.getSubset(asked)
    const = set(n for n in terms if terms[n].termtype & set(['Parameter', 'Localparam']))
    diff('declarations of %s' % asked, [n for n in ts if n not in targets], [n for n in want if n not in targets and n not in const])
    for n, t in ts.items():
        if t is not terms[n] and t != terms[n]:
            raise core.Violation('%s is declared as %s' % (n, t.tostr()))
    groups = dict(parameter=[], assign=[], clockedge=[], combination=[], genvar=[])
    for n, bs in wantbinds.items():
        for b in bs:
            groups[kind(terms[n].termtype, b)].append('%s %s' % (n, b.tostr()))
    for k, d in (('parameter', par), ('assign', assign), ('clockedge', clk), ('combination', comb)):
        have = ['%s %s' % (n, b.tostr()) for n, bs in d.items() for b in (bs if isinstance(bs, (set, list, tuple)) else [bs])]
        diff('%s bindings of %s' % (k, asked), have, set(groups[k]))


def nontrivial(c):
    k = c.get('cone')
    return bool(k) and 3 <= k[0] < k[1]


SUBS = [core.Sub('cone', gen, oracle, quick=1000, thorough=20000, nontrivial=nontrivial, cpu=8,
                 labels=lambda c: ['%d requested' % len(c['picks'])], show=lambda c: c['text'] + '// %s' % c['picks'])]
