"""C18: active conditions are states and conditions under which the signal takes such a value."""
import functools

from pv import core, fsm
from pv.checks import c17

PID = 'C18'
RULE = ('a case is one generated design with a state machine and a register or net assigned under nests of case and if over the state, inputs and wires; '
        'asked for values > 0, == k, != k, changes and non-changes, for all states with up to 48 input values; '
        'non-trivial: at least 3 reported (state, condition) pairs, one with a condition')
ASSUMPTIONS = ['the reset is inactive', 'branches whose conditions do not restrict the state are not reported',
               'completeness is checked where all assigned values differ (equal branches are merged)']


class Active(fsm.Fsm):
    def __init__(self, g):
        super().__init__(g)
        self.out = g.choice(['flag', 'active', 'out_valid', 'q'])
        self.ow = g.choice([1, 2, 4, 10])
        self.distinct = self.ow == 10 and g.bool(0.8)
        self.pool = [g.int(0, 1023), g.int(0, 511) * 2 + 1]
        self.kind = g.choice(['reg', 'reg', 'reg', 'comb'])

    def value(self, reg):
        g = self.g
        if reg != self.out:
            return super().value(reg)
        if self.distinct:
            if g.bool(0.1) and self.kind == 'reg':
                return ('v', reg)
            self.pool[0] = (self.pool[0] + self.pool[1]) % 1024 or self.pool[1]
            v = self.pool[0]
        else:
            k = g.int(0, 9)
            if k == 0 and self.kind == 'reg':
                return ('v', reg)
            if k == 1 and any(x == self.ow for _, x in self.ins):
                return ('v', g.choice([n for n, x in self.ins if x == self.ow]))
            if k == 2:
                self.feat.add('conditional value')
                return ('?', self.cond(1), self.value(reg), self.value(reg))
            v = g.int(0, fsm.mask(self.ow)) if g.bool(0.5) else g.choice([0, 1])
        return ('k', v, g.choice(["%d'd%d" % (self.ow, v), "%d'h%x" % (self.ow, v), '%d' % v]))

    def build(self):
        g = self.g
        super().build()
        self.w[self.out] = self.ow
        regs = [self.out]
        top = g.choice(['case', 'case', 'if', 'any'])
        d = g.int(1, 3)
        self.obody = self.case(regs, d) if top == 'case' else self.stmt(regs, d)
        if top == 'if':
            self.obody = ('if', self.statecmp(), self.stmt(regs, d - 1), self.stmt(regs, d) if g.bool(0.6) else None)
        self.oreset = self.kind == 'reg' and self.reset is not None and g.bool(0.7)
        if self.kind == 'comb':
            self.obody = ('seq', [('set', self.out, ('k', 0, '0')), self.obody])

    def text(self):
        rst = 'rst_n' if self.rlow else 'rst'
        L = ['reg %s%s;' % ('' if self.ow == 1 else '[%d:0] ' % (self.ow - 1), self.out)]
        if self.kind == 'comb':
            L.append('always @* begin')
            L += fsm.lines(self.obody, lambda r, e: '%s = %s;' % (r, fsm.src(e)), '  ')
        else:
            L.append('always @(posedge clk%s) begin' % (
                ' or %s %s' % ('negedge' if self.rlow else 'posedge', rst) if self.oreset and self.reset == 'async' else ''))
            if self.oreset:
                L.append('if(%s) begin %s <= 0; end else begin' % (('!' + rst) if self.rlow else rst, self.out))
            L += fsm.lines(self.obody, lambda r, e: '%s <= %s;' % (r, fsm.src(e)), '  ')
            if self.oreset:
                L.append('end')
        L.append('end')
        return super().text('\n'.join(L))


def gen(g):
    f = Active(g)
    f.build()
    k = g.choice(['>', '>', '==', '!=', 'modify', 'unmodify', '>k', '>=k', '<k'])
    return dict(text=f.text(), name=f.name, regs=f.regs, out=[f.out, f.ow], ins=f.ins, body=f.obody, wires=[[n, e] for n, e, _ in f.wires],
                kind=f.kind, distinct=f.distinct, ask=[k, g.int(0, fsm.mask(f.ow))], rnd=g.int(0, 1 << 30), feat=sorted(f.feat | {f.kind, 'ask ' + k[0]}))


def question(case):
    from pyverilog.controlflow import splitter
    k, n = case['ask']
    out = case['out'][0]
    if k == 'modify':
        return splitter.active_modify, lambda e: e is not None and e != ('v', out)
    if k == 'unmodify':
        return splitter.active_unmodify, lambda e: e is None or e == ('v', out)
    op, n = (k, 0) if k == '>' else (k.rstrip('k'), n)
    test = {'>': lambda x: x > n, '==': lambda x: x == n, '!=': lambda x: x != n, '>=': lambda x: x >= n, '<': lambda x: x < n}[op]
    return (splitter.active_constant if k == '>' else functools.partial(splitter.active_constant, op=op, value=n),
            lambda e: e is not None and e[0] == 'k' and test(e[1]))


def oracle(case):
    from pyverilog.controlflow.active_analyzer import VerilogActiveConditionAnalyzer
    an, ac = c17.analyzer(case, VerilogActiveConditionAnalyzer)
    cond, meets = question(case)
    out, ow = case['out']
    name = [t for t in an.getTerms() if str(t) == 'top.' + out][0]
    got = dict((str(k), v) for k, v in ac.getActiveConditions(name, cond).items())
    env = c17.Env(case, an)
    fsms = set(str(k) for k in ac.fsms)
    wd = dict(map(tuple, case['ins'] + case['regs'] + [case['out']]))
    wires = dict((n, fsm.freeze(e)) for n, e in case['wires'])
    body = fsm.freeze(case['body'])
    pairs = [p for v in got.values() for p in v]
    case['pairs'] = len(pairs)
    case['conds'] = sum(1 for _, c in pairs if c is not None)
    for k, v in got.items():
        if k != 'top.' + out and k not in fsms:
            raise core.Violation('active conditions of %s by %s, which is no state machine' % (out, k))
        if k == 'top.' + out and fsms & set(got):
            raise core.Violation('active conditions of %s by itself besides %s' % (out, sorted(fsms & set(got))))
        for s, c in v:
            if s != 'any' and not 0 <= s < 1 << wd[k[4:]]:
                raise core.Violation('%s has no state %s' % (k, s))
    for v in fsm.valuations(dict(case, regs=case['regs'] + [case['out']]), 48):
        r = {}
        fsm.run(body, v, wd, wires, r)
        e = r.get(out)
        env1 = env.at(v)
        for k, l in got.items():
            for s, c in l:
                if (s == 'any' or s == v[k[4:]]) and env.holds(env1, c) and not meets(e):
                    raise core.Violation('%s active in %s = %s%s: but assigned %s with %s' % (
                        out, k, s, '' if c is None else ' when ' + c.tocode(), 'nothing' if e is None else fsm.src(e), v))
        if not case['distinct'] or case['ask'][0] == 'unmodify' or not meets(e):
            continue
        for k in fsms:
            reg = k[4:]
            if named(body, reg, v, wd, wires) and not any(s == v[reg] and env.holds(env1, c) for s, c in got.get(k, ())):
                raise core.Violation('%s is assigned %s in %s = %d, not reported with %s\nreported: %s' % (
                    out, fsm.src(e), k, v[reg], v, [(s, c and c.tocode()) for s, c in got.get(k, ())]))


def named(s, reg, v, wd, wires, under=False):
    """the last assignment made stands under a case item or an equality that names the state"""
    if s is None:
        return None
    if s[0] == 'set':
        return under
    if s[0] == 'seq':
        return ([None] + [x for x in [named(y, reg, v, wd, wires, under) for y in s[1]] if x is not None])[-1]
    if s[0] == 'if':
        c = bool(fsm.ev(s[1], v, wd, wires)[0])
        here = c and s[1][0] == '==' and s[1][1] == ('v', reg) and s[1][2][0] == 'k'
        return named(s[2] if c else s[3], reg, v, wd, wires, under or here)
    x = fsm.ev(s[1], v, wd, wires)[0]
    for vs, b in s[2]:
        if any(fsm.ev(k, v, wd, wires)[0] == x for k in vs):
            return named(b, reg, v, wd, wires, under or s[1] == ('v', reg))
    return named(s[3], reg, v, wd, wires, under)


SUBS = [core.Sub('active', gen, oracle, quick=1500, thorough=30000, nontrivial=lambda c: c.get('pairs', 0) >= 3 and c.get('conds', 0) >= 1, cpu=6, strict=True,
                 labels=lambda c: c['feat'], show=lambda c: c['text'] + str(c['ask']))]
