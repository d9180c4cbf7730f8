"""C09: constant expressions are evaluated as Verilog evaluates them."""
import re

from pv import core, dfcheck, sim

PID = 'C09'
RULE = ('design: a case is one module with generated parameters, localparams, ranges, array ranges, replications, generate loops and '
        'conditions and parameter overrides, each with a generated constant expression; literal: one integer literal.  Non-trivial: '
        'at least 12 operators in the constant expressions of the design, resp. a literal with a base.')
ASSUMPTIONS = ['Icarus Verilog evaluates constant expressions correctly; the value tracked while generating must agree with it',
               'no intermediate result overflows, no negative value meets an unsigned one, ~ and ~^ apply at the width of their context']

FITS = {'S': lambda v, w: -(1 << (w - 1)) <= v < (1 << (w - 1)), 'U': lambda v, w: 0 <= v < (1 << w)}


class E(object):
    """text, value, kind S or U, width, sized, width that a ~ below depends on (or 0)"""

    def __init__(self, t, v, k='S', w=32, sized=False, tight=0, ops=0, neg=False):
        self.t, self.v, self.k, self.w, self.sized, self.tight, self.ops = t, v, k, w, sized, tight, ops
        self.neg = neg or v < 0

    def __repr__(self):
        return '%s=%d:%s%d' % (self.t, self.v, self.k, self.w)


def literal(g, v, w, k, sized):
    base = g.choice('hdob')
    digits = {'h': '%x', 'd': '%d', 'o': '%o', 'b': None}[base]
    u = v % (1 << w)
    d = bin(u)[2:] if digits is None else digits % u
    if g.bool(0.3):
        d = d.upper()
    if g.bool(0.2) and len(d) > 2:
        i = g.int(1, len(d) - 1)
        d = d[:i] + '_' + d[i:]
    if g.bool(0.2) and base != 'd':
        d = '0' * g.int(1, 2) + d
    if g.bool(0.3):
        base = base.upper()
    if k == 'S':
        base = g.choice('sS') + base
    return '%s%s\'%s%s' % (w if sized else '', '', base, d)


class Exprs(object):
    def __init__(self, g):
        self.g = g
        self.params = []           # E with .rng (msb, lsb)
        self.feat = set()

    def leaf(self, k=None):
        g = self.g
        if self.params and g.bool(0.5):
            ps = [p for p in self.params if k in (None, p.k)]
            if ps:
                p = g.choice(ps)
                if g.bool(0.25) and p.v >= 0:
                    return self.select(p)
                return E(p.t, p.v, p.k, p.w, p.sized)
        k = k or g.choice('SSU')
        if k == 'S':
            if g.bool(0.75):
                v = g.choice([g.int(0, 9), g.int(0, 40), g.int(0, 70000)])
                t = g.choice(['%d', '%d', '%d', '0%d']) % v
                if g.bool(0.1):
                    t = t[0] + '_' + t[1:] if len(t) > 1 else t
                return E(t, v)
            w = g.choice([4, 8, 12, 16, 20, 32])
            v = g.int(0, (1 << (w - 1)) - 1)
            if g.bool(0.3):
                v = g.int(-(1 << (w - 1)), -1)
                self.feat.add('negative literal')
            sized = True
            self.feat.add('signed literal')
            return E(literal(g, v, w, 'S', sized), v, 'S', w, sized)
        w = g.choice([1, 2, 3, 4, 4, 8, 8, 12, 16, 17, 32])
        v = g.choice([g.int(0, (1 << w) - 1), g.int(0, min(9, (1 << w) - 1)), (1 << w) - 1])
        sized = w != 32 or g.bool()
        if sized and g.bool(0.07):
            self.feat.add('literal too large')
            e = literal(g, v + ((1 << w) * g.int(1, 3)), w + 2, 'U', True)
            return E(str(w) + e[len(str(w + 2)):], v, 'U', w, True)
        return E(literal(g, v, w, 'U', sized), v, 'U', w, sized)

    def select(self, p):
        g = self.g
        msb, lsb = p.rng
        self.feat.add('select of parameter')
        step = 1 if msb >= lsb else -1
        lo = g.int(0, p.w - 1)
        hi = g.int(lo, p.w - 1)
        if g.bool(0.5):
            return E('%s[%d]' % (p.t, lsb + step * lo), (p.v >> lo) & 1, 'U', 1, True, ops=1)
        w = hi - lo + 1
        return E('%s[%d:%d]' % (p.t, lsb + step * hi, lsb + step * lo), (p.v >> lo) & ((1 << w) - 1), 'U', w, True, ops=1)

    def expr(self, depth, k=None):
        for _ in range(6):
            e = self.try_expr(depth, k)
            if e is not None:
                return e
        return self.leaf(k)

    def try_expr(self, depth, k):
        g = self.g
        if depth <= 0:
            return self.leaf(k)
        c = g.choice(['bin'] * 8 + ['shift'] * 2 + ['pow', 'cmp', 'cmp', 'logic', 'un', 'un', 'red', 'cond', 'cond', 'cat', 'rep', 'not', 'sig'])
        if c == 'bin':
            return self.binary(depth, k)
        if c == 'shift':
            a = self.expr(depth - 1, k)
            n = self.amount(depth - 1, 20)
            op = g.choice(['<<', '>>', '<<<', '>>>'])
            if op == '>>' and a.v < 0 or a.tight:
                return None
            v = a.v << n.v if op in ('<<', '<<<') else a.v >> n.v
            if not FITS[a.k](v, a.w):
                return None
            return self.mk('(%s %s %s)' % (a.t, op, n.t), v, a.k, a.w, a.sized, 0, a, n)
        if c == 'pow':
            a, n = self.expr(depth - 1, k), self.amount(depth - 1, 8)
            if a.tight or abs(a.v) > 1 << 16 or n.k == 'U' and a.k == 'S':
                return None
            v = a.v ** n.v
            if not FITS[a.k](v, a.w):
                return None
            return self.mk('(%s ** %s)' % (a.t, n.t), v, a.k, a.w, a.sized, 0, a, n)
        if c == 'not':
            a = self.expr(depth - 1, k)
            if a.k == 'U':
                return self.mk('(~%s)' % a.t, ~a.v % (1 << a.w), 'U', a.w, a.sized, a.w, a)
            b = self.expr(depth - 1, 'S')
            if b.v < 0 or a.w != 32 or b.w != 32 or a.tight or b.tight:
                return None
            return self.mk('(%s & ~%s)' % (b.t, a.t), b.v & ~a.v, 'S', 32, False, 0, a, b)
        if c == 'sig':
            a = self.expr(depth - 1)
            if a.tight:
                return None
            if a.k == 'U' and a.v < 1 << (a.w - 1) and k != 'U':
                return self.mk('$signed(%s)' % a.t, a.v, 'S', a.w, a.sized, 0, a)
            if a.k == 'S' and a.v >= 0 and k != 'S':
                return self.mk('$unsigned(%s)' % a.t, a.v, 'U', a.w, a.sized, 0, a)
            return None
        if c == 'un':
            a = self.expr(depth - 1, k)
            op = g.choice('-+')
            if op == '+':
                return self.mk('(+%s)' % a.t, a.v, a.k, a.w, a.sized, a.tight, a)
            if a.k == 'U' or a.tight or not FITS['S'](-a.v, a.w):
                return None
            return self.mk('(-%s)' % a.t, -a.v, 'S', a.w, a.sized, 0, a)
        if k != 'S':
            if c == 'cmp':
                a = self.expr(depth - 1)
                b = self.expr(depth - 1, a.k if a.neg else None)
                if g.bool(0.3):
                    b = E(a.t, a.v, a.k, a.w, a.sized, a.tight, a.ops)
                if self.bad(a, b, max(a.w, b.w)):
                    return None
                op = g.choice(['<', '>', '<=', '>=', '==', '!=', '===', '!=='])
                v = int({'<': a.v < b.v, '>': a.v > b.v, '<=': a.v <= b.v, '>=': a.v >= b.v}.get(op, (a.v == b.v) == (op[0] == '=')))
                return self.mk('(%s %s %s)' % (a.t, op, b.t), v, 'U', 1, True, 0, a, b)
            if c == 'logic':
                a, b = self.expr(depth - 1), self.expr(depth - 1)
                op = g.choice(['&&', '||', '!'])
                if op == '!':
                    return self.mk('(!%s)' % a.t, int(a.v == 0), 'U', 1, a.sized, 0, a)
                v = int(bool(a.v) and bool(b.v)) if op == '&&' else int(bool(a.v) or bool(b.v))
                return self.mk('(%s %s %s)' % (a.t, op, b.t), v, 'U', 1, True, 0, a, b)
            if c == 'red':
                a = self.expr(depth - 1)
                op = g.choice(['&', '~&', '|', '~|', '^', '~^'])
                u = a.v % (1 << a.w)
                v = {'&': u == (1 << a.w) - 1, '|': u != 0, '^': bin(u).count('1') % 2 == 1}[op[-1]]
                return self.mk('(%s%s)' % (op, a.t), int(v != (op[0] == '~')), 'U', 1, a.sized, 0, a)
            if c == 'cat':
                es = [self.expr(depth - 1) for _ in range(g.int(1, 3))]
                if any(not e.sized for e in es) or sum(e.w for e in es) > 40:
                    return None
                v = 0
                for e in es:
                    v = v << e.w | e.v % (1 << e.w)
                return self.mk('{%s}' % ', '.join(e.t for e in es), v, 'U', sum(e.w for e in es), True, 0, *es)
            if c == 'rep':
                n, e = self.small(depth - 1, 4), self.expr(depth - 1)
                if n.v < 1 or not e.sized or n.v * e.w > 40:
                    return None
                v = 0
                for _ in range(n.v):
                    v = v << e.w | e.v % (1 << e.w)
                return self.mk('{%s{%s}}' % (n.t, e.t), v, 'U', n.v * e.w, True, 0, n, e)
        if c == 'cond':
            a = self.expr(depth - 1, k)
            b, cnd = self.expr(depth - 1, a.k), self.expr(depth - 1)
            if a.w != b.w or a.k != b.k:
                return None
            self.feat.add('conditional')
            return self.mk('(%s ? %s : %s)' % (cnd.t, a.t, b.t), a.v if cnd.v else b.v, a.k, a.w, a.sized and b.sized,
                           max(a.tight, b.tight), a, b, cnd)
        return None

    def bad(self, a, b, w):
        return (a.tight or b.tight) and (w != (a.tight or w) or w != (b.tight or w)) or a.k != b.k and (a.neg or b.neg)

    def binary(self, depth, k):
        g = self.g
        a = self.expr(depth - 1, k)
        b = self.expr(depth - 1, k if k else (a.k if g.bool(0.7) else None))
        op = g.choice(['+', '-', '*', '/', '%', '&', '|', '^', '^~', '+', '-'])
        w = max(a.w, b.w)
        kind = 'S' if a.k == b.k == 'S' else 'U'
        if k and kind != k or self.bad(a, b, w):
            return None
        if op in '/%' and b.v == 0:
            return None
        if op == '/':
            v = abs(a.v) // abs(b.v) * (1 if (a.v < 0) == (b.v < 0) else -1)
        elif op == '%':
            v = abs(a.v) % abs(b.v) * (1 if a.v >= 0 else -1)
        elif op == '^~':
            if kind == 'S':
                return None
            return self.mk('(%s %s %s)' % (a.t, g.choice(['^~', '~^']) if b.w == w else '~^', b.t), ~(a.v ^ b.v) % (1 << w), 'U', w, a.sized and b.sized, w, a, b)
        else:
            v = {'+': a.v + b.v, '-': a.v - b.v, '*': a.v * b.v, '&': a.v & b.v, '|': a.v | b.v, '^': a.v ^ b.v}[op]
        if not FITS[kind](v, w):
            return None
        return self.mk('(%s %s %s)' % (a.t, op, b.t), v, kind, w, a.sized and b.sized, a.tight or b.tight, a, b)

    def mk(self, t, v, k, w, sized, tight, *ops):
        return E(t, v, k, w, sized, tight, 1 + sum(o.ops for o in ops), k == 'S' and any(o.neg for o in ops))

    def small(self, depth, hi, lo=0):
        """an expression with a value in lo..hi"""
        for _ in range(4):
            e = self.expr(depth)
            if lo <= e.v <= hi:
                return e
        v = self.g.int(lo, hi)
        ps = [p for p in self.params if p.k == 'S' and 0 <= v - p.v and self.g.bool()]
        if ps:
            p = self.g.choice(ps)
            return E('(%s + %d)' % (p.t, v - p.v), v, 'S', 32, ops=1)
        return E(str(v), v)

    def amount(self, depth, hi):
        """without conditional: analysis also evaluates the alternative that is not taken, which may be huge"""
        e = self.small(depth, hi)
        return e if '?' not in e.t else E(str(e.v), e.v)


def gen(g):
    x = Exprs(g)
    uses, out, prints, refs = [], [], [], []
    want = {}

    def note(e):
        prints.append((e.t, e.v))
        uses.append(e)
        return e.t

    for i in range(g.int(2, 8)):
        n = 'P%d' % i
        e = x.expr(g.int(1, 4))
        kw = g.choice(['localparam', 'localparam', 'parameter'])
        note(e)
        r = g.int(0, 9)
        if r < 3:
            lsb = g.choice([0, 0, 0, 2, 5])
            w = g.int(1, 16) if e.k == 'S' or not e.tight else e.tight
            rng = (lsb + w - 1, lsb)
            p = E(n, e.v % (1 << w), 'U', w, True)
            if e.v != p.v:
                x.feat.add('truncated parameter')
            out.append('%s [%d:%d] %s = %s;' % (kw, rng[0], rng[1], n, e.t))
        elif r == 3 and e.k == 'S' and e.w == 32:
            p, rng = E(n, e.v, neg=e.neg), (31, 0)
            if e.tight and e.tight != 32:
                continue
            out.append('%s integer %s = %s;' % ('parameter', n, e.t))
        else:
            p, rng = E(n, e.v, e.k, e.w, e.sized), (e.w - 1, 0)
            out.append('%s %s = %s;' % (kw, n, e.t))
        refs.append('localparam %s [%d:%d] %s = %s;' % ('signed' if p.k == 'S' else '', rng[0], rng[1], n, e.t))
        p.rng = rng
        x.params.append(p)
        want[n] = p.v
    decl = '\n'.join(refs)
    kinds = ['range', 'dims', 'rep', 'for', 'if', 'inst']
    checks = []
    for i in range(g.int(2, 6)):
        c = g.choice(kinds)
        d = g.int(1, 3)
        if c == 'range':
            a, b = x.small(d, 40), x.small(d, 12)
            out.append('wire [%s:%s] w%d;' % (note(a), note(b), i))
            checks.append(['range', 'w%d' % i, a.v, b.v])
        elif c == 'dims':
            a, b, m = x.small(d, 8), x.small(d, 8), x.small(d, 7)
            out.append('reg [%s:0] m%d [%s:%s];' % (note(m), i, note(a), note(b)))
            checks.append(['dims', 'm%d' % i, m.v, a.v, b.v])
        elif c == 'rep':
            a = x.small(d, 9, 1)
            out.append('wire [15:0] r%d;\nassign r%d = {%s{in0}};' % (i, i, note(a)))
            checks.append(['rep', 'r%d' % i, a.v])
        elif c == 'for':
            a, s = x.small(d, 4), x.small(d, 3, 1)
            b = x.small(d, 8)
            op = g.choice(['<', '<=', '!='])
            idx, k = [], a.v
            while {'<': k < b.v, '<=': k <= b.v, '!=': k != b.v}[op] and len(idx) < 10:
                idx.append(k)
                k += s.v
            if len(idx) == 10 or op == '!=' and any(q.k == 'U' for q in (a, s)):
                continue
            out.append('genvar g%d;\ngenerate for(g%d=%s; g%d%s%s; g%d=g%d+%s) begin: b%d\nwire q;\nassign q = in0;\nend\nendgenerate'
                       % (i, i, note(a), i, op, note(b), i, i, note(s), i))
            checks.append(['for', 'b%d' % i, idx])
        elif c == 'if':
            a = x.expr(d)
            out.append('generate if(%s) begin: t%d\nwire q;\nassign q = in0;\nend else begin: e%d\nwire q;\nassign q = in0;\nend\nendgenerate'
                       % (note(a), i, i))
            checks.append(['if', ('t%d' if a.v else 'e%d') % i, ('e%d' if a.v else 't%d') % i])
        else:
            a, b = x.expr(d), x.small(d, 20)
            if a.tight and a.tight != 32:
                continue
            out.append('s #(%s) u%d(.a(in0));' % (g.choice(['%s, %s', '.A(%s), .B(%s)']) % (note(a), note(b)), i))
            checks.append(['inst', 'u%d' % i, a.v, b.v])
        x.feat.add(c)
    sub = 'module s(input a);\nparameter A = 1;\nparameter B = 2;\nlocalparam C = B + 3;\nwire [B:0] z;\nendmodule\n'
    body = '\n'.join(out)
    text = sub + 'module top(input in0);\n%s\nendmodule\n' % body
    tb = sub + 'module top(input in0);\n%s\ninitial begin\n%s\nend\nendmodule\n' % (
        decl, '\n'.join('$display("R %%0d", %s);' % t for t, _ in prints) + '\n' +
        '\n'.join('$display("R %%0d", %s);' % p.t for p in x.params))
    return dict(text=text, tb=tb, expect=[v for _, v in prints] + [p.v for p in x.params], params=[[p.t, p.v, p.w if p.sized else 0] for p in x.params],
                checks=checks, ops=sum(e.ops for e in uses), feat=sorted(x.feat))


def value(t):
    return None if t is None else getattr(t, 'value', str(t))


def plain(k):
    return re.sub(r'ge_if\d+(_ELSE)?\.', '', dfcheck.canonical(str(k)))


def oracle(case):
    from pyverilog.dataflow.optimizer import VerilogDataflowOptimizer
    try:
        out = sim.compile_and_run(case['tb'])
    except sim.Bad as e:
        raise core.Inconclusive('simulator rejects it')
    got = [l[2:] for l in out.splitlines() if l.startswith('R ')]
    if got != [str(v) for v in case['expect']]:
        raise core.Inconclusive('reference and simulator disagree')
    a = dfcheck.analyze(case['text'], 'top')
    terms, binds = a.getTerms(), a.getBinddict()
    opt = VerilogDataflowOptimizer(terms, binds)
    opt.resolveConstant()
    const = dict((str(k), v) for k, v in opt.getConstlist().items())
    rt = dict((plain(k), v) for k, v in opt.getResolvedTerms().items())
    rb = dict((plain(k), v) for k, v in opt.getResolvedBinddict().items())

    def same(what, v, want):
        if v != want:
            raise core.Violation('%s is %s instead of %s' % (what, v, want))
    for n, v, w in case['params']:
        if 'top.' + n not in const:
            raise core.Violation('constant %s is not resolved' % n)
        c = const['top.' + n]
        same('constant %s' % n, c.value, v)
        if w and c.width != w:
            raise core.Violation('constant %s has width %s instead of %s' % (n, c.width, w))
        same('bound value of %s' % n, value(rb['top.' + n][0].tree), v)
    for c in case['checks']:
        n = 'top.' + c[1]
        if c[0] in ('range', 'dims', 'rep') and n not in rt:
            raise core.Violation('no term for %s' % n)
        if c[0] == 'range':
            same('range of %s' % n, [value(rt[n].msb), value(rt[n].lsb)], c[2:])
        elif c[0] == 'dims':
            same('range of %s' % n, [value(rt[n].msb), value(rt[n].lsb)], [c[2], 0])
            same('array range of %s' % n, [[value(l), value(r)] for l, r in rt[n].dims], [c[3:]])
        elif c[0] == 'rep':
            t = rb[n][0].tree
            same('number of parts of %s' % n, len(t.nextnodes) if type(t).__name__ == 'DFConcat' else 1, c[2])
        elif c[0] == 'for':
            same('scopes of the loop %s' % n, sorted(k for k in rt if k.startswith(n + '[')), sorted('%s[%d].q' % (n, i) for i in c[2]))
        elif c[0] == 'if':
            same('scopes of the condition', [k for k in rt if k.startswith(n + '.')], [n + '.q'])
            same('scopes of the other branch', [k for k in rt if k.startswith('top.' + c[2] + '.')], [])
        else:
            same('parameter A of %s' % n, const[n + '.A'].value, c[2])
            same('parameter B of %s' % n, const[n + '.B'].value, c[3])
            same('localparam of %s' % n, const[n + '.C'].value, c[3] + 3)
            same('range in %s' % n, value(rt[n + '.z'].msb), c[3])


def gen_lit(g):
    k = g.choice('UUS')
    w = g.choice([1, 2, 3, 4, 7, 8, 16, 31, 32, 33, 40, 64, 65])
    v = g.int(0, (1 << w) - 1)
    sized = w != 32 or g.bool()
    if g.bool(0.1):
        v = g.choice([g.int(0, 9), g.int(0, (1 << 31) - 1)])
        return dict(text='%d' % v, v=v, w=32)
    t = literal(g, v, w, k, sized)
    if k == 'S' and v >> (w - 1):
        v -= 1 << w
    return dict(text=t, v=v, w=w)


def oracle_lit(case):
    from pyverilog.dataflow.dataflow import DFIntConst
    c = DFIntConst(case['text'])
    if (c.eval(), c.width()) != (case['v'], case['w']):
        raise core.Violation('%s has value %s and width %s instead of %s and %s' % (case['text'], c.eval(), c.width(), case['v'], case['w']))


SUBS = [core.Sub('design', gen, oracle, quick=1500, thorough=20000, nontrivial=lambda c: c['ops'] >= 12, labels=lambda c: c['feat'],
                 show=lambda c: c['text'], cpu=4),
        core.Sub('literal', gen_lit, oracle_lit, quick=3000, thorough=50000, nontrivial=lambda c: "'" in c['text'],
                 labels=lambda c: ['width %d' % c['w']], show=lambda c: c['text'])]
