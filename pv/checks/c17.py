"""C17: extracted state machines are the transition relation of the design."""
import sys

from pv import core, dfcheck, dfeval, fsm

PID = 'C17'
RULE = ('a case is one generated state machine (1-4 bit state, case and if nests, conditions over inputs, state, other registers and wires, '
        'one or two processes, any reset), all states with up to 48 input values; non-trivial: at least 3 reported transitions under conditions')
ASSUMPTIONS = ['the reset is inactive: transitions by reset are left out on purpose', 'assignments of non-constant values are no transitions',
               'a register is recognised by its name and when a state is named by some condition']


def gen(g):
    f = fsm.Fsm(g)
    f.build()
    return dict(text=f.text(), name=f.name, regs=f.regs, ins=f.ins, body=f.body, wires=[[n, e] for n, e, _ in f.wires], reset=f.reset, rlow=f.rlow,
                rnd=g.int(0, 1 << 30), feat=sorted(f.feat))


def analyzer(case, cls, *a, **kw):
    from pyverilog.dataflow.optimizer import VerilogDataflowOptimizer
    an = dfcheck.analyze(case['text'], 'top')
    sys.setrecursionlimit(3000)
    opt = VerilogDataflowOptimizer(an.getTerms(), an.getBinddict())
    opt.resolveConstant()
    return an, cls('top', an.getTerms(), an.getBinddict(), opt.getResolvedTerms(), opt.getResolvedBinddict(), opt.getConstlist(), *a, **kw)


class Env(object):
    def __init__(self, case, an):
        self.terms = an.getTerms()
        self.consts = dict((k, v) for k, v in an.getBinddict().items() if self.terms[k].termtype & {'Parameter', 'Localparam'})
        self.case = case

    def at(self, v):
        vals = dict(('top.' + n, x) for n, x in v.items())
        vals['top.clk'] = 0
        vals['top.rst'], vals['top.rst_n'] = 0, 1
        return dfeval.Eval(self.terms, self.consts, vals)

    def holds(self, e, cond):
        if cond is None:
            return True
        b, x, w = e.eval(cond)
        if x & ~b and not b & ~x:
            raise core.Violation('unknown condition %s' % cond.tostr()[:300])
        return bool(b & ~x)


def cycles(edges, limit=20000):
    """elementary cycles of {src: {dst}}, each from its least state"""
    out = set()
    work = [0]

    def go(start, n, path, on):
        work[0] += 1
        if work[0] > limit:
            raise core.Inconclusive('many loops')
        for m in edges.get(n, ()):
            if m == start:
                out.add(tuple(path))
            elif m > start and m not in on:
                go(start, m, path + [m], on | {m})
    for s in edges:
        go(s, s, [s], {s})
    return out


def oracle(case):
    from pyverilog.controlflow.controlflow_analyzer import VerilogControlflowAnalyzer
    an, ca = analyzer(case, VerilogControlflowAnalyzer)
    loops, fsms = ca.getLoops()
    env = Env(case, an)
    found = dict((str(k), v) for k, v in fsms.items())
    wd = dict(map(tuple, case['ins'] + case['regs']))
    wires = dict((n, fsm.freeze(e)) for n, e in case['wires'])
    body = fsm.freeze(case['body'])
    case['edges'] = 0
    for n in found:
        if n not in ['top.' + r for r, _ in case['regs']]:
            raise core.Violation('state machine %s is no register' % n)
    for reg, w in case['regs']:
        m = found.get('top.' + reg)
        if m is None:
            continue
        case['edges'] += sum(1 for d in m.fsm.values() for c in d if c is not None)
        for v in fsm.valuations(dict(case, name=reg), 48):
            out = {}
            fsm.run(body, v, wd, wires, out)
            e = out.get(reg)
            want = {e[1] & fsm.mask(w)} if e is not None and e[0] == 'k' else set()
            env1 = env.at(v)
            got = set(d for c, d in m.fsm.get(v[reg], {}).items() if env.holds(env1, c))
            got |= set(d for c, d in m.any.items() if env.holds(env1, c))
            if got != want:
                raise core.Violation('%s in state %d with %s: design goes to %s, reported %s\nfrom %d: %s\nany: %s' % (
                    reg, v[reg], dict((x, y) for x, y in v.items() if x != reg), sorted(want) or 'no constant', sorted(got), v[reg],
                    [(c and c.tocode(), d) for c, d in m.fsm.get(v[reg], {}).items()], [(c and c.tocode(), d) for c, d in m.any.items()]))
        for s in m.fsm:
            if not 0 <= s < 1 << w:
                raise core.Violation('%s has no state %d' % (reg, s))
        want = cycles(dict((s, set(d.values())) for s, d in m.fsm.items()))
        got = [tuple(l) for k, ls in loops.items() if str(k) == 'top.' + reg for l in ls]
        if sorted(got) != sorted(want):
            raise core.Violation('loops of %s: missing %s, unexpected %s' % (reg, sorted(want - set(got))[:4], sorted(set(got) - want)[:4]))
    case['found'] = len(found)
    for reg, w in case['regs']:
        if 'top.' + reg in found:
            continue
        if set(case['feat']) & {'state bits', 'bitwise condition', 'vectors &'}:
            continue
        goals = {}
        for v in fsm.valuations(dict(case, name=reg), 8):
            k = named(body, reg, v, wd, wires, False)
            if k is not None:
                goals.setdefault(str(sorted((x, y) for x, y in v.items() if x != reg)), {})[v[reg]] = k
        for others, d in goals.items():
            if len(set(d.values())) > 1:
                raise core.Violation('no state machine for %s found: with %s it goes to %s under conditions that name the state' % (reg, others, d))


def named(s, reg, v, wd, wires, under):
    """the constant the statement assigns to the register under a case item or an equality that names its state"""
    if s is None:
        return None
    if s[0] == 'set':
        return s[2][1] if under and s[1] == reg and s[2][0] == 'k' else None
    if s[0] == 'seq':
        return ([None] + [k for k in [named(x, reg, v, wd, wires, under) for x in s[1]] if k is not None])[-1]
    if s[0] == 'if':
        c = bool(fsm.ev(s[1], v, wd, wires)[0])
        here = c and s[1][0] == '==' and s[1][1] == ('v', reg) and s[1][2][0] == 'k'
        return named(s[2] if c else s[3], reg, v, wd, wires, under or here)
    x = fsm.ev(s[1], v, wd, wires)[0]
    for vs, b in s[2]:
        if any(fsm.ev(k, v, wd, wires)[0] == x for k in vs):
            return named(b, reg, v, wd, wires, under or s[1] == ('v', reg))
    return named(s[3], reg, v, wd, wires, under)


SUBS = [core.Sub('transitions', gen, oracle, quick=1500, thorough=30000, nontrivial=lambda c: c.get('edges', 0) >= 3, cpu=6, strict=True,
                 labels=lambda c: c['feat'], show=lambda c: c['text'])]
