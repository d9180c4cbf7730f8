"""Random runnable Verilog programs: modules with state, processes, functions,
generate constructs and a test bench that prints everything it sees.  The text
is made of plain strings; what it means is left to the simulator."""

BINOPS = ['+', '-', '*', '&', '|', '^', '~^', '&&', '||', '<', '>', '<=', '>=', '==', '!=', '===', '!==', '<<', '>>', '<<<', '>>>',
          '/', '%']


class Var(object):
    def __init__(self, name, w, lsb=0, signed=False, kind='reg', depth=0, dlo=0):
        self.name, self.w, self.lsb, self.signed, self.kind, self.depth, self.dlo = name, w, lsb, signed, kind, depth, dlo

    @property
    def msb(self):
        return self.lsb + self.w - 1


class Prog(object):
    def __init__(self, g):
        self.g = g
        self.n = 0
        self.feat = set()
        self.fuel = 60

    def name(self, p):
        self.n += 1
        return '%s%d' % (p, self.n)

    # ---- expressions -------------------------------------------------------
    def const(self):
        g = self.g
        k = g.int(0, 9)
        if k <= 2:
            return str(g.choice([0, 1, 2, 3, 5, 8, 13, 100]))
        w = g.choice([1, 2, 3, 4, 5, 8, 12])
        v = g.int(0, (1 << w) - 1)
        s = 's' if g.bool(0.15) else ''
        if k <= 5:
            return "%d'%sd%d" % (w, s, v)
        if k == 6:
            return "%d'%sh%s" % (w, s, ('%x' if g.bool() else '%X') % v)
        if k == 7:
            return "%d'%so%o" % (w, s, v)
        b = format(v, 'b')
        if k == 8 and g.bool(0.3):
            b = ''.join(g.choice('01xz') for _ in range(w))
            self.feat.add('xz')
        if len(b) > 3 and g.bool(0.3):
            b = b[:-2] + '_' + b[-2:]
        return "%d'%sb%s" % (w, s, b)

    def leaf(self, vs, d=0):
        g = self.g
        if not vs or g.bool(0.25):
            return self.const()
        v = g.choice(vs)
        if v.kind == 'func':           # with simple arguments
            simple = [x for x in vs if x.kind != 'func']
            return self.call(v, simple, 0) if d >= 0 else self.const()
        return self.ref(v, vs)

    def ref(self, v, vs, d=0):
        g = self.g
        n = v.name
        if v.depth:
            i = str(g.int(v.dlo, v.dlo + v.depth - 1)) if g.bool() else self.index(vs)
            n = '%s[%s]' % (n, i)
            if v.w == 1 or g.bool(0.7):
                return n
            self.feat.add('memsel')
        if v.kind in ('real',) or (v.w == 1 and not v.lsb) or v.kind in ('genvar', 'param', 'integer') or g.bool(0.55):
            return n
        k = g.int(0, 5)
        if k == 0:
            return '%s[%d]' % (n, g.int(v.lsb, v.msb))
        if k == 1:
            self.feat.add('dynbit')
            return '%s[%s]' % (n, self.index(vs))
        if k == 2:
            self.feat.add('plus')
            w = g.int(1, v.w)
            return '%s[%s +: %d]' % (n, self.index(vs) if g.bool() else v.lsb, w)
        if k == 3:
            self.feat.add('minus')
            w = g.int(1, v.w)
            return '%s[%s -: %d]' % (n, self.index(vs) if g.bool() else v.msb, w)
        a, b = sorted((g.int(v.lsb, v.msb), g.int(v.lsb, v.msb)))
        return '%s[%d:%d]' % (n, b, a)

    def index(self, vs):
        """A small expression without undefined bits, as far as possible."""
        g = self.g
        c = [v.name for v in vs if v.kind in ('reg', 'wire', 'integer', 'genvar') and not v.depth and (v.w <= 4 or v.kind in ('integer', 'genvar'))]
        if not c or g.bool(0.2):
            return str(g.int(0, 3))
        n = g.choice(c)
        return n if g.bool(0.5) else '%s %s %d' % (n, g.choice(['+', '-', '^']), g.int(0, 3))

    def call(self, f, vs, d):
        self.feat.add('call')
        return '%s(%s)' % (f.name, ', '.join(self.expr(vs, d - 1) for _ in range(f.depth)))

    def primary(self, vs, d):
        g = self.g
        if d <= 0:
            return self.leaf(vs)
        k = g.int(0, 11)
        if k <= 3:
            return self.leaf(vs)
        if k <= 6:
            return '(%s)' % self.expr(vs, d - 1)
        if k == 7:
            self.feat.add('concat')
            return '{%s}' % ', '.join(self.sized(vs, d - 1) for _ in range(g.int(1, 3)))
        if k == 8:
            self.feat.add('repeat')
            return '{%d{%s}}' % (g.int(1, 3), ', '.join(self.sized(vs, d - 1) for _ in range(g.int(1, 2))))
        if k == 9:
            self.feat.add('sysfunc')
            return '%s(%s)' % (g.choice(['$signed', '$unsigned', '$signed']), self.sized(vs, d - 1))
        fs = [v for v in vs if v.kind == 'func']
        if fs and g.bool(0.7):
            return self.call(g.choice(fs), vs, d)
        return self.leaf(vs)

    def unary(self, vs, d):
        g = self.g
        p = self.primary(vs, d)
        if g.bool(0.2):
            self.feat.add('unary')
            return g.choice(['-', '~', '!', '&', '|', '^', '~&', '~|', '~^', '+', '-']) + p
        return p

    def sized(self, vs, d):
        """An operand of a concatenation: no unsized constants."""
        g = self.g
        vs = [v for v in vs if v.kind not in ('real',)]
        c = [v for v in vs if v.kind in ('reg', 'wire')]
        if d > 0 and g.bool(0.3):
            x = self.expr([v for v in vs if v.kind in ('reg', 'wire')], d - 1, sized=True)
            return '(%s)' % x if g.bool() else x
        if c and g.bool(0.8):
            return self.ref(g.choice(c), vs)
        return "%d'd%d" % (g.int(2, 6), g.int(0, 3))

    def expr(self, vs, d, sized=False):
        g = self.g
        if d <= 0:
            return self.leaf(vs) if not sized else self.sized(vs, 0)
        if g.bool(0.14):
            self.feat.add('cond')
            f = (lambda: self.chain(vs, d - 1, sized)) if g.bool(0.6) else (lambda: self.expr(vs, d - 1, sized))
            return '%s ? %s : %s' % (self.chain(vs, d - 1, sized), f(), self.expr(vs, d - 1, sized))
        return self.chain(vs, d, sized)

    def chain(self, vs, d, sized=False):
        """Operands and operators without parentheses."""
        g = self.g
        n = g.weighted([(5, 1), (6, 2), (4, 3), (2, 4)])
        if n > 1 and self.fuel <= 0:
            n = 1
        self.fuel -= n
        op = lambda: self.unary(vs, d - 1) if not sized else self.sized(vs, d - 1)
        out = op()
        if n > 2:
            self.feat.add('chain')
        for _ in range(n - 1):
            o = g.choice(BINOPS)
            if g.bool(0.06):
                self.feat.add('power')
                out = '%s ** %d' % (out, g.int(0, 3)) if not g.bool(0.2) else '%s ** %d ** %d' % (out, g.int(0, 3), g.int(0, 2))
                continue
            out = '%s %s %s' % (out, o, op())
        return out

    # ---- statements --------------------------------------------------------
    def lvalue(self, ts, vs):
        g = self.g
        v = g.choice(ts)
        if v.depth:
            return '%s[%s]' % (v.name, self.index(vs) if g.bool(0.6) else g.int(v.dlo, v.dlo + v.depth - 1))
        if v.w > 1 and v.kind == 'reg':
            k = g.int(0, 11)
            if k == 0:
                return '%s[%d]' % (v.name, g.int(v.lsb, v.msb))
            if k == 1:
                return '%s[%s]' % (v.name, self.index(vs))
            if k == 2:
                a, b = sorted((g.int(v.lsb, v.msb), g.int(v.lsb, v.msb)))
                return '%s[%d:%d]' % (v.name, b, a)
            if k == 3:
                return '%s[%s +: %d]' % (v.name, self.index(vs), g.int(1, v.w))
            if k == 4:
                return '%s[%s -: %d]' % (v.name, self.index(vs), g.int(1, v.w))
        o = [t for t in ts if not t.depth and t is not v and t.kind == 'reg']
        if o and not v.depth and v.kind == 'reg' and g.bool(0.1):
            self.feat.add('lconcat')
            return '{%s, %s}' % (v.name, g.choice(o).name)
        return v.name

    def assign(self, ts, vs, op, timed=False):
        g = self.g
        pre = '#%d ' % g.int(1, 3) if timed and g.bool(0.3) else ''
        mid = ' #%d' % g.int(1, 3) if timed and g.bool(0.2) else ''
        if pre or mid:
            self.feat.add('delay')
        return '%s%s %s%s %s;' % (pre, self.lvalue(ts, vs), op, mid, self.expr(vs, g.int(1, 3)))

    def block(self, lines):
        return ['begin'] + ['  ' + l for l in lines] + ['end']

    def stmt(self, ts, vs, op, d, timed=False, loops=True):
        """Lines of one statement."""
        g = self.g
        self.fuel -= 1
        if d <= 0 or self.fuel <= 0:
            return [self.assign(ts, vs, op, timed)]
        o = op if op != 'mix' else g.choice(['=', '<='])
        k = g.weighted([(6, 'assign'), (5, 'if'), (4, 'case'), (3, 'begin'), (2, 'for'), (1, 'while'), (1, 'named'), (1, 'null'),
                        (1, 'disable')] + ([(1, 'delay'), (1, 'forever'), (1, 'fork'), (2, 'display')] if timed else []))
        self.feat.add(k)
        sub = lambda: self.stmt(ts, vs, op, d - 1, timed, loops)
        if k == 'if':
            c = self.expr(vs, 2)
            t = self.inner(sub())
            if g.bool(0.6):
                return ['if (%s)' % c] + t + ['else'] + self.inner(sub())
            return ['if (%s)' % c] + t       # the caller may put an else behind it: see inner()
        if k == 'case':
            kw = g.choice(['case', 'case', 'casez', 'casex'])
            v = g.choice([v for v in vs if v.kind in ('reg', 'wire') and not v.depth] or vs)
            sel = v.name if g.bool(0.7) and v.kind in ('reg', 'wire') and not v.depth else self.expr(vs, 1)
            out = ['%s (%s)' % (kw, sel)]
            n = g.int(1, 4)
            dflt = g.int(0, n) if g.bool(0.7) else -1
            for i in range(n):
                if i == dflt:
                    out += ['  default:'] + self.inner(sub())
                    continue
                items = ', '.join(self.item(kw, v.w, vs) for _ in range(g.weighted([(4, 1), (1, 2)])))
                out += ['  %s:' % items] + self.inner(sub())
            return out + ['endcase']
        if k == 'begin':
            return self.block(sum((sub() for _ in range(g.int(0, 3))), []))
        if k == 'null':
            return [';'] if not g.bool(0.2) else ['begin', 'end']
        if k == 'delay':
            return ['#%d;' % g.int(1, 4)]
        if k == 'display':
            return [self.display(vs)]
        if k == 'for' and loops:
            i = self.name('i')
            self.ints.append(i)
            v2 = vs + [Var(i, 32, kind='integer', signed=True)]
            body = self.inner(self.stmt(ts, v2, op, d - 1, timed, loops))
            n = g.int(1, 4)
            h = g.choice(['for (%s = 0; %s < %d; %s = %s + 1)' % (i, i, n, i, i),
                          'for (%s = %d; %s >= 0; %s = %s - 1)' % (i, n, i, i, i),
                          'for (%s = 1; %s <= %d && !(%s == 9); %s = %s * 2)' % (i, i, n, i, i, i)])
            return [h] + body
        if k == 'while' and loops:
            i = self.name('i')
            self.ints.append(i)
            v2 = vs + [Var(i, 32, kind='integer', signed=True)]
            b = self.stmt(ts, v2, op, d - 1, timed, loops)
            return ['begin', '  %s = 0;' % i, '  while (%s < %d)' % (i, g.int(1, 4))] + ['    ' + x for x in self.block(
                b + ['%s = %s + 1;' % (i, i)])] + ['end']
        if k == 'forever' and timed:
            n, i = self.name('blk'), self.name('i')
            self.ints.append(i)
            b = self.stmt(ts, vs, op, d - 1, timed, loops)
            return ['begin : %s' % n, '  %s = 0;' % i, '  forever begin', '    #1;'] + ['    ' + x for x in b] + [
                '    %s = %s + 1;' % (i, i), '    if (%s > %d)' % (i, g.int(0, 3)), '      disable %s;' % n, '  end', 'end']
        if k == 'fork' and timed:
            return ['fork'] + ['  ' + x for x in sum((self.stmt(ts, vs, op, d - 1, timed, False) for _ in range(g.int(1, 3))), [])] + ['join']
        if k in ('named', 'disable'):
            n = self.name('blk')
            out = ['begin : %s' % n]
            v2, t2 = vs, ts
            if g.bool(0.6) and not timed:
                v = Var(self.name('l'), g.int(1, 8), signed=g.bool(0.3))
                out.append('  reg%s [%d:0] %s;' % (' signed' if v.signed else '', v.w - 1, v.name))
                out.append('  %s = %s;' % (v.name, self.expr(vs, 2)))
                v2, t2 = vs + [v], ts + ([v] if op == '=' else [])
            b = [self.stmt(t2, v2, op, d - 1, timed, loops) for _ in range(g.int(1, 3))]
            if k == 'disable':
                b.insert(g.int(0, len(b)), ['if (%s) disable %s;' % (self.expr(v2, 2), n)])
            return out + ['  ' + l for x in b for l in x] + ['end']
        return [self.assign(ts, vs, o, timed)]

    def inner(self, ls):
        """Body of a statement; now and then without begin/end, an else then binds as it may."""
        g = self.g
        if len(ls) and ls[0].startswith('begin'):
            return ['  ' + l for l in ls]
        if g.bool(0.5):
            ls = self.block(ls)
        return ['  ' + l for l in ls]

    def item(self, kw, w, vs):
        g = self.g
        w = max(1, min(w, 6))
        if kw != 'case' and g.bool(0.5):
            self.feat.add('wild')
            return "%d'b%s" % (w, ''.join(g.choice('01??' + ('x' if kw == 'casex' else 'z')) for _ in range(w)))
        if g.bool(0.15):
            return self.expr(vs, 1)
        return "%d'd%d" % (w, g.int(0, (1 << w) - 1)) if g.bool(0.7) else str(g.int(0, 7))

    def display(self, vs):
        g = self.g
        c = [v for v in vs if v.kind in ('reg', 'wire', 'integer', 'param') and not v.depth]
        es = [g.choice(c).name if c and g.bool(0.4) else self.expr(vs, 2) for _ in range(g.int(1, 2))]
        return '$display("%s", %s);' % (' '.join('%' + g.choice('bdhb') for _ in es), ', '.join(es))

    # ---- items -------------------------------------------------------------
    def function(self, vs):
        g = self.g
        self.feat.add('function')
        f = Var(self.name('f'), g.int(1, 8), kind='func')
        args = [Var(self.name('x'), g.int(1, 8), signed=g.bool(0.2)) for _ in range(g.int(1, 3))]
        f.depth = len(args)
        loc = [Var(self.name('y'), g.int(2, 8), signed=g.bool(0.2)) for _ in range(g.int(0, 2))]
        old, self.ints = self.ints, []
        body = []
        for l in loc:
            body.append('%s = %s;' % (l.name, self.expr(args, 2)))
        ret = Var(f.name, f.w)
        body.append('%s = %s;' % (f.name, self.expr(args + loc, 2)))
        for _ in range(g.int(0, 2)):
            body += self.stmt([ret] + loc, args + loc + (vs if g.bool(0.2) else []), '=', 2)
        out = ['function %s%s;' % ('[%d:0] ' % (f.w - 1) if f.w > 1 or g.bool(0.2) else '', f.name)]
        for v in args:
            out.append('  input%s%s %s;' % (' signed' if v.signed else '', ' [%d:0]' % (v.w - 1) if v.w > 1 else '', v.name))
        for v in loc:
            out.append('  reg%s [%d:0] %s;' % (' signed' if v.signed else '', v.w - 1, v.name))
        for i in self.ints:
            out.append('  integer %s;' % i)
        self.ints = old
        return f, out + ['  ' + l for l in self.block(body)] + ['endfunction']

    def param(self, ps, i):
        """A constant expression over the parameters so far, kept small."""
        g = self.g
        if ps and g.bool(0.6):
            return '%s %s %d' % (g.choice(ps).name, g.choice(['+', '*', '-', '|', '^', '<<', '%']), g.int(1, 3))
        if g.bool(0.3):
            return '%d %s %d %s %d' % (g.int(1, 9), g.choice('+-*'), g.int(1, 9), g.choice('+-*/'), g.int(1, 9))
        return self.const() if g.bool(0.3) else str(g.int(1, 8))

    def decl(self, v, kw):
        d = ' [%d:%d]' % (v.dlo, v.dlo + v.depth - 1) if v.depth else ''
        if v.depth and self.g.bool(0.3):
            d = ' [%d:%d]' % (v.dlo + v.depth - 1, v.dlo)
        r = ' [%d:%d]' % (v.msb, v.lsb) if v.w > 1 or v.lsb else ''
        return '%s%s%s %s%s' % (kw, ' signed' if v.signed else '', r, v.name, d)

    def var(self, p, kind='reg', mem=False):
        g = self.g
        v = Var(self.name(p), g.weighted([(2, 1), (5, g.int(2, 8)), (1, g.int(9, 40))]), g.weighted([(5, 0), (1, g.int(1, 3))]),
                g.bool(0.25), kind)
        if mem:
            v.depth, v.dlo = g.int(2, 4), g.weighted([(3, 0), (1, 1)])
        return v

    def module(self, name, subs):
        """(text, ports) of a module; subs: modules it may instantiate."""
        g = self.g
        self.ints = []
        self.fuel = 90
        body = []
        inputs = [Var('clk', 1, kind='wire'), Var('rst', 1, kind='wire')] + [self.var('a', 'wire') for _ in range(g.int(1, 3))]
        params = [Var(self.name('P'), 32, kind='param') for _ in range(g.int(0, 2))]
        pvals = []
        for i, p in enumerate(params):
            pvals.append(self.param(params[:i], i))
        locs = []
        for _ in range(g.int(0, 2)):
            l = Var(self.name('L'), 32, kind='param')
            k = g.weighted([(4, 'localparam'), (1, 'parameter')])
            rng = g.weighted([(4, ''), (1, '[7:0] '), (1, 'signed [5:0] ')])
            body.append('%s %s%s = %s;' % (k, rng, l.name, self.param(params + locs, 1)))
            locs.append(l)
        vs = inputs[2:] + params + locs
        outs = []
        for _ in range(g.int(0, 2)):
            f, ls = self.function(vs[:])
            body += ls
            vs.append(f)
        regs = []
        for _ in range(g.int(1, 4)):        # state
            v = self.var('r', mem=g.bool(0.2))
            init = ''
            if not v.depth and g.bool(0.3):
                init = ' = %s' % self.const()
            body.append(self.decl(v, 'reg') + init + ';')
            regs.append(v)
        vs += regs
        n = g.int(1, 6)
        for _ in range(n):
            k = g.weighted([(4, 'assign'), (2, 'wire'), (4, 'comb'), (1, 'genfor'), (1, 'genif'), (3 if subs else 0, 'inst'), (1, 'iarr' if subs else 'comb'),
                            (1, 'level')])
            self.feat.add(k)
            if k == 'assign':
                v = self.var('w', 'wire')
                body.append(self.decl(v, 'wire') + ';')
                e = self.expr(vs, 3)
                body.append('assign %s%s = %s;' % ('#%d ' % g.int(1, 2) if g.bool(0.1) else '', v.name, e))
                vs.append(v)
            elif k == 'wire':
                v = self.var('w', 'wire')
                body.append(self.decl(v, 'wire') + ' = ' + self.expr(vs, 3) + ';')
                vs.append(v)
            elif k in ('comb', 'level'):
                t = [self.var('c') for _ in range(g.int(1, 2))]
                for v in t:
                    body.append(self.decl(v, 'reg') + ';')
                ls = ['%s = %s;' % (v.name, self.expr(vs, 2)) for v in t]
                for _ in range(g.int(1, 2)):
                    ls += self.stmt(t, vs + t, '=', 3)
                if k == 'level':
                    sens = [v.name for v in vs if v.kind in ('reg', 'wire') and not v.depth]
                    sens = '@(%s)' % g.choice([' or ', ', ']).join(sens[:1] + [s for s in sens[1:] if g.bool(0.7)])
                else:
                    sens = g.choice(['@*', '@(*)', '@ *'])
                kw = 'always %s' % sens
                if k == 'comb' and g.bool(0.3) and '[' not in ''.join(ls) and '(' not in ''.join(ls):
                    kw = g.choice(['always_comb', 'always_latch'])
                    self.feat.add(kw)
                body += [kw] + ['  ' + l for l in self.block(ls)]
                vs += t
            elif k == 'genfor':
                v = self.var('w', 'wire')
                v.w = g.int(2, 4)
                i = self.name('gv')
                body.append(self.decl(v, 'wire') + ';')
                body.append('genvar %s;' % i)
                e = self.expr(vs + [Var(i, 32, kind='genvar')], 2)
                l = self.name('gen')
                kw = True
                pl = params[:1] if g.bool(0.3) else []
                inner = ['assign %s[%s] = %s;' % (v.name, i, e)]
                if g.bool(0.3):
                    inner = ['if (%s %s %d) begin%s' % (i, g.choice(['<', '>=', '==']), g.int(0, 3), ' : %s' % self.name('gb') if g.bool() else '')] + inner + [
                        'end', 'else begin', 'assign %s[%s] = %s;' % (v.name, i, self.expr(vs, 1)), 'end']
                body += (['generate'] if kw else []) + ['for (%s = %d; %s <= %d; %s = %s + 1) begin : %s' % (i, v.lsb, i, v.msb, i, i, l)] + inner + [
                    'end'] + (['endgenerate'] if kw else [])
                vs.append(v)
            elif k == 'genif':
                v = self.var('w', 'wire')
                body.append(self.decl(v, 'wire') + ';')
                c = self.expr(params + locs, 2) if params + locs else self.const()
                kw = True
                body += (['generate'] if kw else []) + ['if (%s) begin' % c, 'assign %s = %s;' % (v.name, self.expr(vs, 2)), 'end', 'else begin',
                                                        'assign %s = %s;' % (v.name, self.expr(vs, 2)), 'end'] + (['endgenerate'] if kw else [])
                vs.append(v)
            elif k in ('inst', 'iarr'):
                body += self.instance(g.choice(subs), vs, k == 'iarr')
        for v in regs:                       # clocked processes
            ls = self.stmt([v], vs, '<=' if g.bool(0.8) else '=', 3)
            k = g.int(0, 3)
            if k == 0 and not v.depth:
                ls = ['if (rst)', '  %s <= %s;' % (v.name, self.const()), 'else'] + self.inner(ls)
                sens = '@(posedge clk or posedge rst)' if g.bool() else '@(posedge clk, posedge rst)'
            else:
                sens = '@(%s clk)' % g.choice(['posedge', 'negedge', 'posedge'])
            kw = 'always_ff' if k != 1 and not v.depth and g.bool(0.15) else 'always'
            body += ['%s %s' % (kw, sens)] + ['  ' + l for l in (self.block(ls) if g.bool(0.7) or len(ls) > 1 and not k == 0 else ls)]
            if v.depth:
                i = self.name('i')
                self.ints.append(i)
                body += ['initial for (%s = %d; %s < %d; %s = %s + 1) %s[%s] = %s;' % (i, v.dlo, i, v.dlo + v.depth, i, i, v.name, i, self.const())]
            elif g.bool(0.6):
                body.append('initial %s = %s;' % (v.name, self.const()))
        sig = [v for v in vs if v.kind in ('reg', 'wire') and v not in inputs]
        for v in sig:
            if v.depth:
                continue
            o = Var(self.name('o'), v.w, 0, v.signed and g.bool(), 'wire')
            outs.append((o, v))
        while len(outs) > 5:
            outs.pop(g.int(0, len(outs) - 1))
        body += ['assign %s = %s;' % (o.name, v.name) for o, v in outs]
        body = ['integer %s;' % i for i in self.ints] + body
        return self.header(name, inputs, [o for o, _ in outs], params, pvals, body), (name, inputs, [o for o, _ in outs], params)

    def header(self, name, ins, outs, params, pvals, body):
        g = self.g
        k = g.int(0, 2)
        ports = [('input', v) for v in ins] + [('output', v) for v in outs]
        p = ''
        pre = []
        if params and g.bool(0.5):
            p = ' #(%s)' % ', '.join('parameter %s = %s' % (v.name, x) for v, x in zip(params, pvals))
        else:
            pre = ['parameter %s = %s;' % (v.name, x) for v, x in zip(params, pvals)]
        if k == 0:
            out = ['module %s%s(%s);' % (name, p, ', '.join(v.name for _, v in ports))] + ['  %s;' % self.decl(v, d) for d, v in ports]
        else:
            out = ['module %s%s(' % (name, p)] + ['  %s%s' % (self.decl(v, d + (' wire' if g.bool(0.2) else '')), ',' if i < len(ports) - 1 else '')
                                                  for i, (d, v) in enumerate(ports)] + [');']
        return out + ['  ' + l for l in pre + body] + ['endmodule', '']

    def instance(self, sub, vs, array=False):
        g = self.g
        name, ins, outs, params = sub
        out = []
        n = g.int(2, 3) if array else 1
        conn = []
        for v in ins:
            if v.name in ('clk', 'rst'):
                conn.append((v.name, v.name))
            else:
                e = self.expr(vs, 1)
                if array and g.bool():
                    x = Var(self.name('w'), v.w * n, 0, False, 'wire')
                    out.append(self.decl(x, 'wire') + ' = %s;' % e)
                    e = x.name
                elif array:
                    x = Var(self.name('w'), v.w, 0, False, 'wire')
                    out.append(self.decl(x, 'wire') + ' = %s;' % e)
                    e = x.name
                conn.append((v.name, e))
        new = []
        for v in outs:
            x = Var(self.name('u'), v.w * n, 0, g.bool(0.2), 'wire')
            out.append(self.decl(x, 'wire') + ';')
            new.append(x)
            conn.append((v.name, x.name))
        vs += new
        if g.bool(0.6):
            c = g.perm(conn) if g.bool(0.5) else conn
            ps = ', '.join('.%s(%s)' % x for x in c)
        else:
            ps = ', '.join(e for _, e in conn)
        pp = ''
        if params and g.bool(0.6):
            pp = ' #(%s)' % (', '.join('.%s(%d)' % (p.name, g.int(1, 6)) for p in params if g.bool(0.8)) if g.bool() else
                             ', '.join(str(g.int(1, 6)) for p in params))
            if pp == ' #()':
                pp = ''
        out.append('%s%s %s%s (%s);' % (name, pp, self.name('u'), ' [%d:0]' % (n - 1) if array else '', ps))
        return out

    def top(self, mod):
        g = self.g
        self.ints = []
        self.fuel = 60
        name, ins, outs, params = mod
        out = ['module top;', '  reg clk = 0;', '  reg rst = 0;']
        v2 = []
        for v in ins[2:]:
            x = Var(v.name, v.w, 0, v.signed)
            out.append('  ' + self.decl(x, 'reg') + ';')
            v2.append(x)
        vs = [Var('clk', 1), Var('rst', 1)] + v2
        inst = self.instance(mod, vs)
        # connect the inputs by name
        conn = ', '.join(['.%s(%s)' % (v.name, v.name) for v in ins] + ['.%s(z%s)' % (v.name, v.name) for v in outs])
        pp = ''
        if params and g.bool():
            pp = ' #(%s)' % ', '.join('.%s(%d)' % (p.name, g.int(1, 6)) for p in params)
        for v in outs:
            x = Var('z' + v.name, v.w, 0, v.signed, 'wire')
            out.append('  ' + self.decl(x, 'wire') + ';')
        zs = [Var('z' + v.name, v.w, 0, v.signed, 'wire') for v in outs]
        out.append('  %s%s dut (%s);' % (name, pp, conn))
        state = [self.var('s') for _ in range(g.int(1, 2))]
        for v in state:
            out.append('  ' + self.decl(v, 'reg') + ';')
        h = g.int(2, 4)
        out.append('  ' + g.choice(['always #%d clk = !clk;' % h, 'always begin #%d; clk = ~clk; end' % h, 'initial forever #%d clk = ~clk;' % h]))
        st = ['rst = %d;' % g.int(0, 1)] + ['%s = %s;' % (v.name, self.const()) for v in v2 + state] + ['#%d;' % g.int(1, 6), 'rst = 0;']
        for _ in range(g.int(3, 6)):
            for v in v2:
                if g.bool(0.8):
                    st.append('%s = %s;' % (v.name, self.const() if g.bool(0.5) else '$random(seed)' if g.bool(0.7) else self.expr(v2 + state, 2)))
            k = g.int(0, 6)
            if k <= 2:
                st.append('#%d;' % g.int(1, 7))
            elif k == 3:
                st.append('@(%s clk);' % g.choice(['posedge', 'negedge']))
            elif k == 4:
                st.append('wait (%s);' % g.choice(['clk', '!clk', 'clk == 1']))
            else:
                st += self.stmt(state, v2 + state + zs, 'mix' if False else '=', 2, timed=True)
            st.append(self.show(v2 + state + zs))
        mon = ['always @(%s) begin' % ' or '.join(v.name for v in zs), '  $strobe("m %0t ' + ' '.join('%b' for _ in zs) + '", $time, ' + ', '.join(v.name for v in zs) + ');',
               'end'] if zs else []
        out += ['  integer seed;'] + ['  integer %s;' % i for i in self.ints] + ['  ' + l for l in mon]
        out += ['  initial begin', '    seed = %d;' % g.int(0, 99)] + ['    ' + l for l in st] + ['    #3 $finish(0);' if False else '    #3;', '    $finish(0);', '  end']
        out += ['  initial begin', '    #300;', '    $finish(0);', '  end', 'endmodule', '']
        return out

    def show(self, vs):
        return '$display("%0t ' + ' '.join('%' + self.g.choice('bbdh') for _ in vs) + '", $time, ' + ', '.join(v.name for v in vs) + ');'


def program(g):
    p = Prog(g)
    mods = []
    text = []
    for i in range(g.weighted([(3, 1), (2, 2), (1, 3)])):
        t, m = p.module('m%d' % i, mods)
        text += t
        mods.append(m)
    if len(mods) > 1:
        p.feat.add('hierarchy')
    text += p.top(mods[-1])
    return dict(text='\n'.join(text), feat=sorted(p.feat))
