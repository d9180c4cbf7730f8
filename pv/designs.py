"""Generator of legal, width-matched Verilog designs and of stimuli for them.

Every operand has exactly the width its context asks for, so the value of an
expression does not depend on extension rules; no part of a design is ever
undefined for defined inputs and registers (no latches, no division by zero,
no index out of range).  What a design does is decided by simulation.

A width is an int, or the name of a parameter (then W.value says what it is
for the checks that need it).
"""
import contextlib
import random

CLOCKS = ['clk', 'CLK', 'clock', 'sysclk']
RESETS = ['rst', 'RST_X', 'reset_n', 'rst_n']
BIN = ['+', '-', '*', '&', '|', '^', '~^', '<<', '>>', '/', '%']
CMP = ['==', '!=', '<', '<=', '>', '>=', '===', '!==']
RED = ['&', '|', '^', '~&', '~|', '~^']


WCHOICES = [2, 3, 4, 5]


class Sig(object):
    def __init__(self, name, w, lsb=0, arr=None):
        self.name, self.w, self.lsb, self.arr = name, w, lsb, arr

    def rng(self):
        if isinstance(self.w, str):
            return '[%s-1:0] ' % self.w
        if self.w == 1 and self.lsb == 0:
            return ''
        return '[%d:%d] ' % (self.w + self.lsb - 1, self.lsb)


def pw(w):
    return w


class Mod(object):
    def __init__(self, name):
        self.name = name
        self.params = []        # (name, declaration, default text, choices of override texts, width or None)
        self.ports = []         # (direction, Sig, is_reg)
        self.decls = []
        self.items = []
        self.funcs = []         # (name, width, [arg widths])
        self.regs = []          # Sig, clocked
        self.clk = None
        self.rst = None
        self.signed = []


class Design(object):
    """opts: comb seq func for case array inst param gen concat cond div temp named shift split"""

    def __init__(self, g, opts, depth=3, maxw=6, maxitems=4):
        self.g = g
        self.outer = None
        self.bitmod = False     # modules with one output of one bit
        self.opts = set(opts)
        self.n = 0
        self.mods = []
        self.depth = depth
        self.maxw = maxw
        self.maxitems = maxitems
        self.feat = set()
        self.clocked = []     # (clk, edge, rst or None, rst edge)
        self.cond_budget = 6
        self.rb = []
        self.rbleft = 0
        self.complex_conds = 1

    def has(self, o):
        return o in self.opts

    def uid(self, p='s'):
        self.n += 1
        return '%s%d' % (p, self.n)

    def width(self):
        g = self.g
        k = g.int(0, 5)
        if k == 0:
            return 1
        if k == 1 and self.wparam:
            return self.wparam
        return g.int(1, self.maxw)

    # ---- expressions ----------------------------------------------------
    # each returns (text, is_const)
    def const(self, w, lo=0):
        g = self.g
        if isinstance(w, str):
            return ('{%s{%s}}' % (w, g.choice(["1'b0", "1'b1"])), False)
        v = g.int(lo, (1 << w) - 1)
        k = g.int(0, 3)
        if k == 0:
            return ("%d'd%d" % (w, v), True)
        if k == 1:
            return ("%d'h%x" % (w, v), True)
        if k == 2:
            return ("%d'b%s" % (w, format(v, 'b')), True)
        return ("%d'o%o" % (w, v), True)

    def sel(self, s, w):
        """Part of signal s with width w < s.w"""
        g = self.g
        lo = g.int(0, s.w - w) + s.lsb
        if w == 1:
            return '%s[%d]' % (s.name, lo)
        k = g.int(0, 3)
        if k == 0 and self.has('plus'):
            return '%s[%d+:%d]' % (s.name, lo, w)
        if k == 1 and self.has('plus'):
            return '%s[%d-:%d]' % (s.name, lo + w - 1, w)
        return '%s[%d:%d]' % (s.name, lo + w - 1, lo)

    def onebit(self, s):
        return s.name if s.w == 1 else '%s[%d]' % (s.name, s.lsb + self.g.int(0, s.w - 1))

    def leaf(self, w, rd):
        g = self.g
        if self.rb:
            # reading a signal back within its own always block repeats its whole tree
            if self.rbleft > 0 and g.bool(0.3):
                self.rbleft -= 1
                self.feat.add('readback')
            else:
                rd = [s for s in rd if s not in self.rb]
        same = [s for s in rd if s.w == w and s.arr is None]
        k = g.int(0, 9)
        if same and k < 6:
            return (g.choice(same).name, False)
        if isinstance(w, int):
            wide = [s for s in rd if isinstance(s.w, int) and s.w > w and s.arr is None]
            if wide and k < 8:
                return (self.sel(g.choice(wide), w), False)
            ps = [p for p in self.params if p[1] == w]
            if ps and k == 8:
                return (g.choice(ps)[0], True)
            if w == 1:
                sym = [s for s in rd if isinstance(s.w, str)]
                if sym and g.bool():
                    s = g.choice(sym)
                    return ('%s[%s]' % (s.name, g.choice(['0', s.w + '-1'])), False)
        if same and g.bool(0.5):
            return (g.choice(same).name, False)
        return self.const(w)

    def expr(self, w, d, rd):
        g = self.g
        if d <= 0 or g.bool(0.2):
            return self.leaf(w, rd)
        k = g.int(0, 19)
        if k <= 6:
            return self.binary(w, d, rd)
        if k == 7:
            a, c = self.expr(w, d - 1, rd)
            if c:
                return a, c
            return ('(%s%s)' % (g.choice(['~', '-', '~']), a), False)
        if self.funcs and self.fn_ok and isinstance(w, int) and g.bool(0.2):
            fs = [f for f in self.funcs if isinstance(f[1], int) and f[1] <= w]
            if fs:
                f = g.choice(fs)
                self.feat.add('call')
                call = '%s(%s)' % (f[0], ', '.join(self.expr(x, d - 2, rd)[0] for x in f[2]))
                if f[1] < w:
                    call = '{%s, %s}' % (self.expr(w - f[1], 0, rd)[0], call)
                return (call, False)
        if k <= 10 and w == 1:
            return self.boolean(d, rd)
        if k <= 10 and self.has('cond') and self.cond_budget > 0:
            self.cond_budget -= 1
            c = self.cond(d - 1, rd)
            a = self.expr(w, d - 1, rd)[0]
            b = self.expr(w, d - 1, rd)[0]
            self.feat.add('cond')
            return ('(%s ? %s : %s)' % (c, a, b), False)
        if k <= 13 and self.has('concat') and isinstance(w, int) and w >= 2:
            self.feat.add('concat')
            parts = []
            left = w
            while left:
                n = g.int(1, left)
                if n % 2 == 0 and g.bool(0.2):
                    parts.append('{2{%s}}' % self.expr(n // 2, d - 2, rd)[0])
                else:
                    parts.append(self.expr(n, d - 2, rd)[0])
                left -= n
            return ('{%s}' % ', '.join(parts), False)
        if k <= 16:
            arrs = [s for s in rd if s.arr is not None and s.w == w]
            if arrs:
                s = g.choice(arrs)
                self.feat.add('array')
                return ('%s[%s]' % (s.name, self.index(s.arr, d - 1, rd)), False)
        if k == 17 and w == 1 and self.has('dynbit'):
            ss = [s for s in rd if s.arr is None and s.w in (2, 4, 8) and s.lsb == 0]
            if ss:
                s = g.choice(ss)
                self.feat.add('dynbit')
                return ('%s[%s]' % (s.name, self.index(s.w, 0, [x for x in rd])), False)
        return self.leaf(w, rd) if g.bool() else self.binary(w, d, rd)

    def index(self, n, d, rd):
        """Expression with values below n (a power of two)."""
        w = n.bit_length() - 1
        if self.g.bool(0.3):
            return str(self.g.int(0, n - 1))
        ts = [s for s in self.rb if s.w == w]
        if ts and self.rbleft > 0 and self.g.bool(0.4):
            self.rbleft -= 1
            self.feat.add('tempindex')
            return ts[0].name
        return self.expr(w, d, rd)[0]

    def binary(self, w, d, rd):
        g = self.g
        ops = BIN[:9 if self.has('shift') else 7]
        op = g.choice(BIN[:11]) if self.has('div') else g.choice(ops)
        a, ca = self.expr(w, d - 1, rd)
        if op in ('<<', '>>'):
            if not self.has('shift'):
                op = '+'
            else:
                self.feat.add('shift')
                ps = [p[0] for p in self.params if p[1] is None and p[2] is not None and p[0] != self.wparam]
                n = str(g.int(0, 4)) if g.bool(0.4) else self.expr(g.int(1, 3), d - 2, rd)[0]
                if ps and g.bool(0.5):
                    self.feat.add('intparam')
                    n = g.choice(ps)
                return (a if ca else '(%s %s %s)' % (a, op, n), ca)
        if op in '/%':
            if isinstance(w, str) or ca:
                op = '^'
            else:
                self.feat.add('div')
                return ('(%s %s %s)' % (a, op, self.const(w, 1)[0]), False)
        b, cb = self.expr(w, d - 1, rd)
        if ca and cb:
            return a, True
        return ('(%s %s %s)' % (a, op, b), False)

    def boolean(self, d, rd):
        g = self.g
        k = g.int(0, 5)
        w = self.anyw(rd)
        if k <= 2:
            a, ca = self.expr(w, d - 1, rd)
            b, cb = self.expr(w, d - 1, rd)
            if ca and cb:
                return self.leaf(1, rd)
            op = g.choice(CMP[:6] if g.bool(0.9) else CMP)
            return ('(%s %s %s)' % (a, op, b), False)
        if k == 3:
            a, ca = self.expr(w, d - 1, rd)
            if ca:
                return self.leaf(1, rd)
            return ('(%s%s)' % (g.choice(RED), a), False)
        if k == 4:
            return ('(!%s)' % self.paren(self.expr(w, d - 1, rd)[0]), False)
        a, ca = self.expr(self.anyw(rd) if g.bool(0.3) else 1, d - 1, rd)
        b, cb = self.expr(self.anyw(rd) if g.bool(0.3) else 1, d - 1, rd)
        return ('(%s %s %s)' % (a, g.choice(['&&', '||']), b), ca and cb)

    def paren(self, s):
        return s

    def anyw(self, rd):
        c = [s.w for s in rd if s.arr is None]
        return self.g.choice(c) if c and self.g.bool(0.8) else self.g.int(1, 4)

    def cond(self, d, rd):
        g = self.g
        with self.plain():
            if g.bool(0.7):
                return self.boolean(max(d, 1), rd)[0]
            return self.leaf(g.choice([1, 1, 2, 3]), rd)[0]

    @contextlib.contextmanager
    def plain(self):
        """Mostly no ?: and no reading back: a condition that holds branches is
        spread over the whole tree, whose size then multiplies."""
        save = self.cond_budget, self.rbleft
        if self.complex_conds > 0 and self.g.bool(0.2):
            self.complex_conds -= 1
            self.cond_budget = self.rbleft = 1
        else:
            self.cond_budget = self.rbleft = 0
        yield
        self.cond_budget, self.rbleft = save

    # ---- statements --------------------------------------------------------
    def pieces(self, s):
        """A way to assign s: the whole, or a partition of its bits."""
        g = self.g
        if not self.has('split') or not isinstance(s.w, int) or s.w == 1 or g.bool(0.7):
            return [(s.name, s.w)]
        self.feat.add('split')
        out = []
        lo = s.lsb
        left = s.w
        while left:
            n = g.int(1, left)
            out.append(('%s[%d]' % (s.name, lo) if n == 1 else '%s[%d:%d]' % (s.name, lo + n - 1, lo), n))
            lo += n
            left -= n
        return out

    def stmts(self, tg, d, rd, op, n=None):
        g = self.g
        out = []
        for _ in range(n or g.int(1, 3)):
            out.append(self.stmt(tg, d, rd, op))
        return out

    def block(self, tg, d, rd, op):
        ss = self.stmts(tg, d, rd, op)
        if len(ss) == 1 and self.g.bool(0.5) and self.closed(ss[0]):
            return ss[0]
        lab = ''
        if self.has('named') and self.g.bool(0.1):
            lab = ' : ' + self.uid('blk')
        return 'begin%s\n%s\nend' % (lab, '\n'.join(ss))

    def closed(self, s):
        return not s.startswith('if') and not s.startswith('for')

    def assign1(self, tg, rd, op, d=None):
        g = self.g
        flat = [t for t in tg if len(t) == 2]
        if len(flat) >= 2 and self.has('lconcat') and g.bool(0.12) and op in ('=', '<='):
            a, b = g.perm(flat)[:2]
            if isinstance(a[1], int) and isinstance(b[1], int):
                self.feat.add('lconcat')
                return '{%s, %s} %s %s;' % (a[0], b[0], op, self.expr(a[1] + b[1], self.depth - 1, rd)[0])
        t = g.choice(tg)
        if len(t) > 2:      # an array: (name, width, Sig)
            lhs = '%s[%s]' % (t[0], self.index(t[2].arr, 1, rd))
        else:
            lhs = t[0]
        return '%s %s %s;' % (lhs, op, self.expr(t[1], self.depth - 1 if d is None else d, rd)[0])

    def stmt(self, tg, d, rd, op):
        g = self.g
        k = g.int(0, 9) if d > 0 else 0
        if k <= 3:
            return self.assign1(tg, rd, op)
        if k <= 6:
            s = 'if (%s) %s' % (self.cond(2, rd), self.block(tg, d - 1, rd, op))
            if g.bool(0.5):
                self.feat.add('else')
                s += '\nelse %s' % (self.block(tg, d - 1, rd, op))
            return s if not s.startswith('if') or True else s
        if k <= 8 and self.has('case'):
            return self.case(tg, d, rd, op)
        return 'begin\n%s\nend' % '\n'.join(self.stmts(tg, d - 1, rd, op))

    def case(self, tg, d, rd, op):
        g = self.g
        c = [s for s in rd if isinstance(s.w, int) and s.w <= 4 and s.arr is None and (s not in self.rb or self.complex_conds > 0)]
        if not c:
            return self.assign1(tg, rd, op)
        self.feat.add('case')
        s = g.choice(c)
        self.complex_conds -= s in self.rb
        comp = s.name
        w = s.w
        if g.bool(0.2) and w > 1:
            with self.plain():
                comp, _ = self.expr(w, 1, rd)
        vals = g.perm(range(1 << w))
        kind = g.choice(['case'] * 7 + ['casez'] * 3 + ['casex']) if self.has('casez') else 'case'
        out = []
        for _ in range(g.int(1, 3)):
            n = g.int(1, 2)
            vs, vals = vals[:n], vals[0 if g.bool(0.15) else n:]
            if not vs:
                break
            items = []
            for v in vs:
                t = "%d'd%d" % (w, v)
                if kind == 'casez':
                    self.feat.add('casez')
                    t = "%d'b%s" % (w, ''.join(g.choice('?zZ?') if g.bool(0.3) else b for b in format(v, '0%db' % w)))
                items.append(t)
            out.append('%s: %s' % (', '.join(items), self.block(tg, d - 1, rd, op)))
        if g.bool(0.7):
            out.insert(len(out) if g.bool(0.8) else g.int(0, len(out)), 'default: %s' % self.block(tg, d - 1, rd, op))
        return '\n'.join(['%s (%s)' % (kind, comp)] + out + ['endcase'])

    # ---- module items -----------------------------------------------------
    def new(self, kind, w=None, p='s'):
        g = self.g
        w = self.width() if w is None else w
        lsb = 0
        if self.has('lsb') and isinstance(w, int) and w > 1 and g.bool(0.15):
            lsb = g.int(1, 3)
            self.feat.add('lsb')
        s = Sig(self.uid(p), w, lsb)
        out = g.bool(0.4) and kind in ('wire', 'reg') and not self.bitmod
        self.declare(s, kind, out)
        return s

    def declare(self, s, kind, out=False):
        if out:
            self.m.ports.append(('output', s, kind == 'reg'))
        else:
            dims = '' if s.arr is None else ' [0:%d]' % (s.arr - 1)
            self.m.decls.append('%s %s%s%s;' % (kind, s.rng(), s.name, dims))

    def i_assign(self):
        g = self.g
        if self.has('lconcat') and g.bool(0.15):
            a, b = self.new('wire', w=g.int(1, 4)), self.new('wire', w=g.int(1, 4))
            self.feat.add('lconcat')
            self.m.items.append('assign {%s, %s} = %s;' % (a.name, b.name, self.expr(a.w + b.w, self.depth, self.rd)[0]))
            self.rd += [a, b]
            return
        if self.has('implicit') and g.bool(0.15):
            # not declared: the assignment is the declaration
            s = Sig(self.uid('s'), 1, 0)
            self.feat.add('implicit net')
            self.m.decls.append('assign %s = %s;' % (s.name, self.expr(1, self.depth, self.rd)[0]))
            self.rd.append(s)
            return
        s = self.new('wire')
        for lhs, w in self.pieces(s):
            self.m.items.append('assign %s = %s;' % (lhs, self.expr(w, self.depth, self.rd)[0]))
        self.rd.append(s)

    def i_gate(self):
        """gate primitives, alone or in arrays, driving a wire or its bits"""
        g = self.g
        kind = g.choice(['and', 'nand', 'or', 'nor', 'xor', 'xnor', 'not', 'buf'])
        self.feat.add('gate')
        n = 1 if kind in ('not', 'buf') else g.int(2, 4)
        name = ' ' + self.uid('g') if g.bool(0.7) else ''
        if g.bool(0.35):
            # an array takes operands of its size
            w = g.int(2, 4)
            same = [s for s in self.rd if s.w in (w, 1) and s.arr is None]
            if same:
                self.feat.add('gate array')
                y = self.new('wire', w=w)
                self.m.items.append('%s %s[%s](%s);' % (kind, self.uid('g'), g.choice(['%d:0', '0:%d']) % (w - 1), ', '.join(
                    [y.name] + [g.choice(same).name if g.bool(0.8) else self.onebit(g.choice(same)) for _ in range(n)])))
                self.rd.append(y)
                return
        y = self.new('wire')
        if not isinstance(y.w, int):
            self.m.items.append('assign %s = %s;' % (y.name, self.expr(y.w, 1, self.rd)[0]))
        else:
            for i in range(y.w):
                args = [self.leaf(1, self.rd)[0] if g.bool(0.7) else self.expr(1, 1, self.rd)[0] for _ in range(n)]
                if n == 1 and g.bool(0.2):
                    self.feat.add('gate outputs')
                    z = self.new('wire', w=1)
                    self.rd.append(z)
                    args.insert(0, z.name)
                self.m.items.append('%s%s(%s);' % (kind, name and name + 'abcdef'[i], ', '.join([y.name if y.w == 1 else '%s[%d]' % (y.name, i + y.lsb)] + args)))
        self.rd.append(y)

    def i_comb(self):
        g = self.g
        ts = [self.new('reg') for _ in range(g.int(1, 2))]
        tg = []
        rd = list(self.rd)
        body = []
        for s in ts:
            ps = self.pieces(s)
            tg += ps
            for lhs, w in ps:
                body.append('%s = %s;' % (lhs, self.expr(w, 2, rd)[0]))
            if self.has('readback') and g.bool(0.7):
                rd.append(s)
                self.rb.append(s)
        self.rbleft = g.int(1, 3)
        if self.has('for') and g.bool(0.3):
            body.append(self.forloop(rd, ts))
        body += self.stmts(tg, 2, rd, '=')
        self.rb = []
        self.feat.add('comb')
        sens = g.choice(['@*', '@(*)', '@*'])
        self.m.items.append('always %s begin\n%s\nend' % (sens, '\n'.join(body)))
        self.rd += ts

    def forloop(self, rd, ts):
        """for (i...) t[i] = ...; t is a new target assigned bit by bit."""
        g = self.g
        w = g.int(2, 4)
        t = self.new('reg', w=w)
        ts.append(t)
        i = self.uid('i')
        self.m.decls.append('integer %s;' % i)
        src = [s for s in rd if isinstance(s.w, int) and s.w >= w and s.lsb == 0 and s.arr is None]
        terms = []
        for _ in range(g.int(1, 2)):
            if src:
                s = g.choice(src)
                j = i if g.bool(0.7) or s.w == w else '%s + 1' % i
                if g.bool(0.2):
                    j = '%d - %s' % (w - 1, i)
                terms.append('%s[%s]' % (s.name, j))
        terms.append(self.expr(1, 1, rd)[0])
        e = (' %s ' % g.choice(['&', '|', '^'])).join(terms)
        self.feat.add('for')
        if g.bool(0.2):
            return 'for (%s = %d; %s >= 0; %s = %s - 1) begin\n%s[%s] = %s;\nend' % (i, w - 1, i, i, i, t.name, t_idx(t, i), e)
        return 'for (%s = 0; %s < %d; %s = %s + 1) begin\n%s[%s] = %s;\nend' % (i, i, w, i, i, t.name, t_idx(t, i), e)

    def i_func(self):
        g = self.g
        name = self.uid('f')
        w = g.int(1, 4)
        args = [Sig(self.uid('a'), g.int(1, 4)) for _ in range(g.int(1, 3))]
        rd = list(args)
        self.fn_ok = False
        body = ['%s = %s;' % (name, self.expr(w, 2, rd)[0])]
        if g.bool(0.5):
            k = g.int(0, 2)
            tg = [(name, w)]
            if k == 0:
                body = [self.ifchain(tg, rd)]
            elif k == 1 and self.has('case'):
                body = [self.fcase(tg, rd)]
            else:
                body.append('if (%s) %s = %s;' % (self.cond(1, rd), name, self.expr(w, 2, rd)[0]))
        self.fn_ok = True
        txt = 'function %s%s;\n' % (Sig('', w).rng(), name)
        txt += ''.join('input %s%s;\n' % (a.rng(), a.name) for a in args)
        if len(body) > 1 or g.bool():
            txt += 'begin\n%s\nend\n' % '\n'.join(body)
        else:
            txt += body[0] + '\n'
        txt += 'endfunction'
        self.feat.add('func')
        self.m.items.append(txt)
        self.funcs.append((name, w, [a.w for a in args]))

    def ifchain(self, tg, rd):
        return 'if (%s) %s else %s' % (self.cond(1, rd), self.assign1(tg, rd, '=', 1), self.assign1(tg, rd, '=', 1))

    def fcase(self, tg, rd):
        g = self.g
        s = g.choice([x for x in rd if isinstance(x.w, int) and x.w <= 4] or [None])
        if s is None:
            return self.ifchain(tg, rd)
        vals = g.perm(range(1 << s.w))[:g.int(1, 3)]
        out = ['case (%s)' % s.name]
        for v in vals:
            out.append("%d'd%d: %s" % (s.w, v, self.assign1(tg, rd, '=', 1)))
        out.append('default: %s' % self.assign1(tg, rd, '=', 1))
        return '\n'.join(out + ['endcase'])

    # ---- sequential ----------------------------------------------------------
    def pre_regs(self):
        """Registers are declared first: everything may read them."""
        g = self.g
        self.seqgroups = []
        for _ in range(g.int(1, 2)):
            grp = []
            for _ in range(g.int(1, 2)):
                s = self.new('reg', p='r')
                grp.append(s)
            if self.has('array') and g.bool(0.4):
                s = Sig(self.uid('mem'), g.int(1, 4), 0, g.choice([2, 4]))
                self.declare(s, 'reg')
                grp.append(s)
            self.seqgroups.append(grp)
            self.rd += grp
            self.m.regs += grp
            self.m.state += [(s.name, s.w, s.arr) for s in grp]

    def i_seq(self, grp):
        g = self.g
        clk, edge = self.m.clk, g.weighted([(4, 'posedge'), (1, 'negedge')])
        if len(self.m.clks) > 1:
            clk = g.choice(self.m.clks)
        rst = self.m.rst if g.bool(0.7) else None
        low = rst is not None and (rst.endswith('_n') or rst.endswith('_X'))
        kind = g.choice(['async', 'sync']) if rst else None
        tg = []
        resets = []
        pre = []
        rd = list(self.rd)
        op = '<='
        if self.has('blocking') and len(self.seqgroups) == 1 and len(grp) == 1 and g.bool(0.5):
            # a single register, so that no other block reads it at the same edge
            self.feat.add('blocking')
            op = '='
            # signals computed from the register change in zero time
            ins = [p[1] for p in self.m.ports if p[0] == 'input']
            rd = [s for s in rd if s in ins or s is grp[0]]
            if grp[0].arr is None:
                self.rb.append(grp[0])
                self.rbleft = g.int(1, 3)
            else:
                rd.remove(grp[0])
        if self.has('temp') and g.bool(0.3):
            self.feat.add('temp')
            t = Sig(self.uid('t'), g.int(1, 4))
            if grp[-1].arr is not None and g.bool(0.5):
                t.w = grp[-1].arr.bit_length() - 1
            self.declare(t, 'reg')
            pre.append('%s = %s;' % (t.name, self.expr(t.w, 2, rd)[0]))
            rd.append(t)
            self.rb.append(t)
            self.rbleft = g.int(1, 3)
            for _ in range(g.int(0, 2)):
                pre.append('if (%s) %s = %s;' % (self.cond(1, rd), t.name, self.expr(t.w, 2, rd)[0])
                           if g.bool() else '%s = %s;' % (t.name, self.expr(t.w, 2, rd)[0]))
        for s in grp:
            if s.arr is not None:
                tg.append((s.name, s.w, s))
                continue
            ps = self.pieces(s)
            tg += ps
            for lhs, w in ps:
                if g.bool(0.9):
                    resets.append('%s %s %s;' % (lhs, op, self.const(w)[0]))
        body = self.stmts(tg, 2, rd, op)
        self.rb = []
        if rst and resets:
            cond = '!' + rst if low else rst
            if low and g.bool(0.3):
                cond = '~' + rst
            if g.bool(0.2):
                cond = "%s == 1'b%d" % (rst, 0 if low else 1)
            rb = 'begin\n%s\nend' % '\n'.join(resets)
            mb = 'begin\n%s\nend' % '\n'.join(pre + body)
            body = ['if (%s) %s else %s' % (cond, rb, mb)]
            self.feat.add(kind)
        else:
            kind = None
            body = pre + body
        if kind == 'async':
            redge = 'negedge' if low else 'posedge'
            ev = ['%s %s' % (edge, clk), '%s %s' % (redge, rst)]
            if g.bool(0.2):
                ev.reverse()
            sens = '@(%s)' % ' or '.join(ev)
            ent = [clk, edge, rst, redge]
        else:
            sens = '@(%s %s)' % (edge, clk)
            ent = [clk, edge, None, None]
        self.feat.add('seq')
        self.m.items.append('always %s begin\n%s\nend' % (sens, '\n'.join(body)))
        self.m.seq.append([[s.name for s in grp], ent])

    # ---- hierarchy ----------------------------------------------------------
    def i_inst(self):
        g = self.g
        cands = [m for m in self.mods]
        if not cands:
            return self.i_assign()
        m = g.choice(cands)
        self.feat.add('inst')
        name = self.uid('u')
        par, pvals = self.override(m)
        conns = []
        newrd = []
        for dr, s, isreg in m.ports:
            if dr == 'clock':
                conns.append((s.name, self.m.clk))
                continue
            if dr == 'reset':
                conns.append((s.name, self.m.rst))
                continue
            w = pvals.get(s.w, s.w)
            if dr == 'input':
                conns.append((s.name, self.expr(w, 2, self.rd)[0]))
            else:
                if g.bool(0.1):
                    conns.append((s.name, ''))
                    continue
                o = self.new('wire', w=w)
                newrd.append(o)
                conns.append((s.name, o.name))
        if g.bool(0.5) or any(not c[1] for c in conns):
            if g.bool(0.5):
                conns = g.perm(conns)
                self.feat.add('permuted')
            txt = ', '.join('.%s(%s)' % c for c in conns)
        else:
            txt = ', '.join(c[1] for c in conns)
        self.m.items.append('%s%s %s(%s);' % (m.name, par, name, txt))
        self.m.insts.append((name, m.name, dict(pvals)))
        self.state(name, m, pvals)
        self.rd += newrd

    def state(self, path, m, pvals):
        for n, w, a in m.state:
            self.m.state.append(('%s.%s' % (path, n), pvals.get(w, w), a))

    def override(self, m):
        """Text of the parameter override and the values by parameter name."""
        g = self.g
        vals = dict((p[0], p[2]) for p in m.params)
        if not m.params or not self.has('param') or g.bool(0.25):
            return '', vals
        named = g.bool()
        ovs = []
        for p in m.params:
            if named and g.bool(0.3):
                continue
            if not named and g.bool(0.15):
                break
            v = g.choice(p[3])
            if p[3] == WCHOICES and self.wparam and g.bool(0.5):
                self.feat.add('handdown')
                vals[p[0]] = self.wparam
                ovs.append((p[0], self.wparam))
                continue
            vals[p[0]] = v
            t = "%d'd%d" % (p[1], v) if isinstance(p[1], int) else str(v)
            if p[1] is None and g.bool(0.2):
                t = '%d + %d' % (v - 1, 1) if v > 0 else '0'
            ovs.append((p[0], t))
        if not ovs:
            return '', vals
        self.feat.add('override')
        if named:
            return ' #(%s)' % ', '.join('.%s(%s)' % o for o in g.perm(ovs)), vals
        return ' #(%s)' % ', '.join(o[1] for o in ovs), vals

    def i_genfor(self):
        g = self.g
        w = self.wparam if self.wparam and g.bool(0.4) else g.int(2, 4)
        sym = isinstance(w, str)
        y = self.new('wire', w=w)
        i = self.uid('g')
        self.feat.add('genfor')
        src = [s for s in self.rd if s.arr is None and s.lsb == 0 and (s.w == w if sym else isinstance(s.w, int) and s.w >= w)]
        blk = self.uid('gb')
        idx = '%s[%s]' % (y.name, t_idx(y, i))
        lo, hi = (0, w)
        if not sym and g.bool(0.2):         # not starting at 0
            lo = g.int(1, w - 1)
            self.m.items.append('assign %s = %s;' % (
                '%s[%d:%d]' % (y.name, y.lsb + lo - 1, y.lsb) if lo > 1 else '%s[%d]' % (y.name, y.lsb), self.expr(lo, 1, self.rd)[0]))
        stride = 2 if not sym and w % 2 == 0 and lo == 0 and g.bool(0.25) else 1
        body = self.genbody(i, idx, src, w, blk, None if sym else list(range(lo, w, stride)))
        if stride == 2:
            self.feat.add('genstride')
            body += '\nassign %s[%s] = %s;' % (y.name, t_idx(y, i + ' + 1'), self.expr(1, 2, self.rd)[0])
        self.m.decls.append('genvar %s;' % i)
        step = '%s = %s + %d' % (i, i, stride)
        head = '%s = %s; %s < %s; %s' % (i, lo, i, hi, step)
        if not sym and lo == 0 and stride == 1 and g.bool(0.2):
            head = '%s = %d; %s >= 0; %s = %s - 1' % (i, w - 1, i, i, i)
        elif not sym and g.bool(0.2):
            head = '%s = %s; %s <= %s; %s' % (i, lo, i, hi - 1, step)
        self.m.items.append('generate for (%s) begin : %s\n%s\nend endgenerate' % (head, blk, body))
        self.rd.append(y)
        if self.outer:
            # read a net of the loop from outside
            loc, ws = self.outer
            k = 0 if sym else g.choice(range(lo, w, stride))
            s = self.new('wire', w=1)
            self.feat.add('hierref')
            self.m.items.append('assign %s = %s[%d].%s;' % (s.name, blk, k, loc))
            self.rd.append(s)
            self.outer = None

    def genbody(self, i, idx, src, w, blk, copies):
        g = self.g
        loc = self.uid('t')
        terms = ['%s[%s]' % (g.choice(src).name, i)] if src else []
        terms.append(self.expr(1, 2, self.rd)[0])
        e = (' %s ' % g.choice(['&', '|', '^'])).join(terms)
        sym = isinstance(w, str)
        k = g.int(0, 7)
        if k == 0:
            if self.has('hierref') and g.bool(0.6):
                self.outer = (loc, 1)
            return 'wire %s;\nassign %s = %s;\nassign %s = ~%s;' % (loc, loc, e, idx, loc)
        if k == 1:
            self.feat.add('genif')
            c = self.gencond([i] + [p[0] for p in self.params if p[1] is None and p[0] != self.wparam][:2])
            lab = ' : ' + self.uid('gi') if g.bool() else ''
            e2 = self.expr(1, 2, self.rd)[0]
            if g.bool(0.4):
                return 'if (%s) begin%s\nassign %s = %s;\nend else if (%s == %d) begin\nassign %s = ~%s;\nend else assign %s = %s;' % (
                    c, lab, idx, e, i, g.int(0, 3), idx, self.leaf(1, self.rd)[0], idx, e2)
            return 'if (%s) begin%s\nassign %s = %s;\nend else begin\nassign %s = %s;\nend' % (c, lab, idx, e, idx, e2)
        if k in (2, 6) and self.bitmods():
            m = g.choice(self.bitmods())
            self.feat.add('geninst')
            conns = []
            for dr, s, _ in m.ports:
                if dr == 'output':
                    conns.append('.%s(%s)' % (s.name, idx))
                elif dr == 'input':
                    conns.append('.%s(%s)' % (s.name, '%s[%s]' % (g.choice(src).name, i) if src and s.w == 1 and g.bool(0.7)
                                              else self.expr(s.w, 1, self.rd)[0]))
                elif dr == 'clock':
                    conns.append('.%s(%s)' % (s.name, self.m.clk))
                else:
                    conns.append('.%s(%s)' % (s.name, self.m.rst))
            par, pvals = '', dict((p[0], p[2]) for p in m.params)
            ints = [p for p in m.params if p[1] is None and p[3] != WCHOICES]
            if ints and g.bool(0.6):
                # an override that differs from copy to copy
                par = ' #(.%s(%s))' % (ints[0][0], i)
                self.feat.add('geninstparam')
            u = self.uid('u')
            if not sym and not any(a for n, a, b in m.state):
                for n in copies:
                    self.state('%s[%d].%s' % (blk, n, u), m, pvals)
            elif m.state:
                return 'assign %s = %s;' % (idx, e)
            self.m.insts.append(('%s[].%s' % (blk, u), m.name, {}))
            return '%s%s %s(%s);' % (m.name, par, u, ', '.join(g.perm(conns)))
        if k == 3:
            self.feat.add('genalways')
            return 'reg %s;\nalways @* begin\n%s = %s;\nend\nassign %s = %s;' % (loc, loc, e, idx, loc)
        if k == 4:
            self.feat.add('gennest')
            j, b2, t = self.uid('g'), self.uid('gb'), self.uid('t')
            self.m.decls.append('genvar %s;' % j)
            n = g.int(2, 3)
            e2 = self.expr(1, 1, self.rd)[0]
            return ('wire [%d:0] %s;\nfor (%s = 0; %s < %d; %s = %s + 1) begin : %s\nif (%s %s %s) assign %s[%s] = %s; '
                    'else assign %s[%s] = %s;\nend\nassign %s = %s%s;' % (
                        n - 1, t, j, j, n, j, j, b2, i, g.choice(['<', '==', '>']), j, t, j, e, t, j, e2, idx, g.choice('&|^'), t))
        if k == 5 and self.has('intparam'):
            self.feat.add('genlocal')
            c = self.uid('C')
            return 'localparam %s = %s + 1;\nassign %s = (%s == %d) ? %s : %s;' % (
                c, i, idx, c, g.int(1, 3), e, self.leaf(1, self.rd)[0])
        return 'assign %s = %s;' % (idx, e)

    def gencond(self, names):
        """a constant condition over integer parameters and loop variables"""
        g = self.g
        if not names:
            return str(g.int(0, 3))
        p = g.choice(names)
        k = g.int(0, 9)
        if k <= 4:
            return '%s %s %d' % (p, g.choice(['==', '<', '>=', '!=', '>', '<=']), g.int(0, 4))
        self.feat.add('gencond')
        q = g.choice(names)
        n = g.int(1, 4)
        return {5: p, 6: '!' + p if g.bool() else '%s %% %d' % (p, g.int(2, 3)), 7: '%s - %d' % (p, n), 8: '%s %s %d' % (
            p, g.choice(['&', '|', '^', '*', '>>', '<<', '+']), n),
            9: g.choice(['%s && %s', '%s || %s', '%s == %s', '%s < %s', '(%s == 1) ? %s : 1', '%s != %s']) % (p, q)}[k]

    def bitmods(self):
        out = []
        for m in self.mods:
            outs = [p for p in m.ports if p[0] == 'output']
            if len(outs) == 1 and outs[0][1].w == 1 and not any(isinstance(p[1].w, str) for p in m.ports):
                out.append(m)
        return out

    def i_genif(self):
        g = self.g
        ps = [p for p in self.params if p[1] is None and p[0] != self.wparam]
        c = self.gencond([p[0] for p in ps])
        self.feat.add('genif')
        s = self.new('wire')
        s2 = self.new('reg') if g.bool(0.3) else None
        arms = []
        for _ in range(2):
            b = ''.join('assign %s = %s;\n' % (l, self.expr(w, 2, self.rd)[0]) for l, w in [(s.name, s.w)])
            if s2:
                b += 'always @* %s = %s;\n' % (s2.name, self.expr(s2.w, 2, self.rd)[0])
            lab = ' : ' + self.uid('gi') if g.bool() else ''
            if g.bool(0.3):
                t = self.uid('t')
                b = 'wire %s%s;\nassign %s = %s;\n' % (s.rng(), t, t, self.expr(s.w, 1, self.rd)[0]) + b.replace(' = ', ' = %s ^ ' % t, 1)
            arms.append('begin%s\n%send' % (lab, b))
        if ps and g.bool(0.4):
            arms[1] = 'if (%s == %d) %s else %s' % (g.choice(ps)[0], g.int(0, 4), arms[1], arms[0].replace(': gi', ': gj'))
        self.m.items.append('generate if (%s) %s else %s endgenerate' % (c, arms[0], arms[1]))
        self.rd.append(s)
        if s2:
            self.rd.append(s2)

    # ---- module ----------------------------------------------------------
    def module(self, name, top=False):
        g = self.g
        m = Mod(name)
        self.n = 0              # modules use the same names for different things
        m.insts = []
        m.state = []
        m.seq = []
        m.clks = []
        self.m = m
        self.rd = []
        self.funcs = []
        self.params = []       # (name, width or None, value, choices)
        self.wparam = None
        self.fn_ok = True
        self.cond_budget = 6
        seq = self.has('seq') and (g.bool(0.8) or top)
        if self.has('param') and g.bool(0.6):
            if not top and g.bool(0.6) and not self.bitmod:
                v = g.int(2, 4)
                self.wparam = self.uid('W')
                self.params.append((self.wparam, None, v, WCHOICES))
            for _ in range(g.int(0, 2)):
                if g.bool():
                    w = g.int(1, 4)
                    self.params.append((self.uid('K'), w, g.int(0, (1 << w) - 1), list(range(1 << w))))
                else:
                    self.params.append((self.uid('P'), None, g.int(0, 4), [0, 1, 2, 3, 4]))
        m.params = list(self.params)
        ints = [p[0] for p in self.params if p[1] is None]
        if ints and g.bool(0.5):
            n, a = self.uid('D'), g.choice(ints)
            m.decls.append('localparam %s = %s;' % (n, g.choice(['%s + 1', '%s * 2', '6 - %s', '(%s > 2) ? 3 : 1', '%s & 3', '1 << %s']) % a))
            self.params.append((n, None, None, []))
        # localparams count as constants of their width
        nloc = g.int(0, 2) if self.has('param') else 0
        for _ in range(nloc):
            w = g.int(1, 4)
            v = g.int(0, (1 << w) - 1)
            n = self.uid('L')
            m.decls.append("localparam [%d:0] %s = %d'd%d;" % (w - 1, n, w, v))
            self.params.append((n, w, v, []))
        if seq or (self.has('seq') and not top):
            m.clk = g.choice(CLOCKS)
            m.rst = g.choice(RESETS)
            m.ports.append(('clock', Sig(m.clk, 1), False))
            m.ports.append(('reset', Sig(m.rst, 1), False))
            m.clks = [m.clk]
            if top and self.has('clocks') and g.bool(0.15):
                m.ports.append(('clock', Sig('clk_b', 1), False))
                m.clks.append('clk_b')
        for _ in range(g.int(1, 4)):
            s = Sig(self.uid('in'), self.width(), 0)
            m.ports.append(('input', s, False))
            self.rd.append(s)
        if seq:
            self.pre_regs()
        kinds = []
        if self.has('assign') or not self.has('comb'):
            kinds += [(3, self.i_assign)]
        if self.has('comb'):
            kinds.append((3, self.i_comb))
        if self.has('func'):
            kinds.append((1, self.i_func))
        if self.has('gate'):
            kinds.append((1, self.i_gate))
        if self.has('inst') and self.mods:
            kinds.append((6 if top else 2, self.i_inst))
        if self.has('gen'):
            kinds.append((1, self.i_genfor))
            kinds.append((1, self.i_genif))
        if self.has('inst') and self.mods and top:
            self.i_inst()
        for _ in range(g.int(1, self.maxitems)):
            with g.span():
                g.weighted(kinds)()
        if seq:
            for grp in self.seqgroups:
                self.i_seq(grp)
        if not any(p[0] == 'output' for p in m.ports):
            s = Sig(self.uid(), 1 if self.bitmod else g.int(1, 3))
            self.declare(s, 'wire', True)
            m.items.append('assign %s = %s;' % (s.name, self.expr(s.w, 2, self.rd)[0]))
            self.rd.append(s)
        m.sigs = list(self.rd)
        m.text = self.text(m)
        self.mods.append(m)
        return m

    def text(self, m):
        g = self.g
        items = g.perm(m.items) if self.has('shuffle') else m.items
        ansi = g.bool(0.6)
        hdr = 'module %s' % m.name
        body = ''
        pd = ['parameter %s%s = %s' % ('' if w is None else '[%d:0] ' % (w - 1), n, v if w is None else "%d'd%d" % (w, v))
              for n, w, v, ch in m.params]
        if pd and g.bool(0.6):
            hdr += ' #(%s)' % ', '.join(pd)
        elif pd:
            if any(isinstance(s.w, str) for d, s, r in m.ports) and ansi:
                hdr += ' #(%s)' % ', '.join(pd)
            else:
                body += ''.join(p + ';\n' for p in pd)
        D = {'clock': 'input', 'reset': 'input', 'input': 'input', 'output': 'output'}
        if ansi:
            hdr += '(%s);\n' % ', '.join('%s %s%s%s' % (D[d], 'reg ' if r else '', s.rng(), s.name) for d, s, r in m.ports)
        else:
            hdr += '(%s);\n' % ', '.join(s.name for d, s, r in m.ports)
            for d, s, r in m.ports:
                body += '%s %s%s;\n' % (D[d], s.rng(), s.name)
                if r:
                    body += 'reg %s%s;\n' % (s.rng(), s.name)
        return hdr + body + '\n'.join(m.decls) + '\n' + '\n'.join(items) + '\nendmodule\n'


def t_idx(s, i):
    return i if s.lsb == 0 else '%s + %d' % (i, s.lsb)


# ----------------------------------------------------------------------------
# a test bench
# ----------------------------------------------------------------------------
def vectors(rng, ins, n):
    out = []
    for _ in range(n):
        v = {}
        for name, w in ins:
            k = rng.randrange(8)
            v[name] = 0 if k == 0 else (1 << w) - 1 if k == 1 else rng.randrange(1 << w)
        out.append(v)
    return out


def case(g, d, top, nvec=12):
    """Everything the checks need to know of the design, as JSON."""
    ins = [[s.name, s.w] for k, s, r in top.ports if k == 'input']
    rng = random.Random(g.int(0, 1 << 30))
    regs = [[n, w, a] for n, w, a in top.state]
    vecs = vectors(rng, ins, nvec)
    states = []
    for _ in range(nvec):
        states.append(dict((n, rng.randrange(1 << w) if not a else [rng.randrange(1 << w) for _ in range(a)]) for n, w, a in regs))
    obs = [[s.name, s.w] for s in top.sigs if s.arr is None]
    text = ''.join(m.text for m in (g.perm(d.mods) if d.has('shuffle') else d.mods))
    return dict(text=text, top=top.name, ins=ins, regs=regs, obs=obs, vecs=vecs, states=states,
                clks=list(top.clks), rst=top.rst if top.clk else None, seq=top.seq, feat=sorted(d.feat),
                rnd=rng.randrange(1 << 30), insts=[[i[0], i[1]] for i in top.insts])


# vvp misses some events of partly assigned variables, so every combinational
# block (see sim.started) is run again until values have passed through all.
SETTLE = 'repeat (8) #1 go = !go;'


def tb_comb(case, extra=()):
    """Prints, per vector, the values of all observed signals."""
    out = ['module pvtb;']
    for n, w in case['ins']:
        out.append('reg [%d:0] %s;' % (w - 1, n))
    ports = ['.%s(%s)' % (n, n) for n, w in case['ins']]
    for n in case['clks'] + ([case['rst']] if case['rst'] else []):
        out.append('reg %s = 0;' % n)
        ports.append('.%s(%s)' % (n, n))
    out.append('%s dut(%s);' % (case['top'], ', '.join(ports)))
    out.append('reg go = 0;')
    out.append('initial begin')
    out.append('#1 go = 1;')
    names = [n for n, w in case['obs']] + list(extra)
    for i, v in enumerate(case['vecs']):
        for n, w in case['ins']:
            out.append("%s = %d'd%d;" % (n, w, v[n]))
        out += set_state(case, i)
        out.append(SETTLE)
        out.append('$display("@ %s", %s);' % (' '.join(['%b'] * len(names)), ', '.join('dut.' + n for n in names)))
    out.append('$finish;\nend\nendmodule\n')
    return '\n'.join(out)


def tb_seq(case, after=False):
    """Per vector: set levels, inputs and registers; print the observed signals
    (line 'a'), flip one signal, print the registers, and, if after is set, the
    observed signals (line 'b')."""
    out = ['module pvtb;']
    for n, w in case['ins']:
        out.append('reg [%d:0] %s;' % (w - 1, n))
    ports = ['.%s(%s)' % (n, n) for n, w in case['ins']]
    ctl = case['clks'] + ([case['rst']] if case['rst'] else [])
    for n in ctl:
        out.append('reg %s = 0;' % n)
        ports.append('.%s(%s)' % (n, n))
    out.append('%s dut(%s);' % (case['top'], ', '.join(ports)))
    out.append('reg go = 0;')
    out.append('initial begin')
    out.append('#1 go = 1;')
    regs = []
    for n, w, a in case['regs']:
        regs += ['dut.%s[%d]' % (n, j) for j in range(a)] if a else ['dut.' + n]
    for i, v in enumerate(case['vecs']):
        ev = case['events'][i]
        for n in ctl:
            out.append('%s = %d;' % (n, ev['level'][n]))
        for n, w in case['ins']:
            out.append("%s = %d'd%d;" % (n, w, v[n]))
        out.append('#1;')
        out += set_state(case, i)
        out.append(SETTLE)
        out.append('$display("@ %s", %s);' % (' '.join(['%b'] * len(case['obs'])), ', '.join('dut.' + n for n, w in case['obs'])))
        out.append('%s = !%s;' % (ev['flip'], ev['flip']))
        out.append(SETTLE if after else '#1;')
        shown = regs + ['dut.' + n for n, w in case['obs']] if after else regs
        out.append('$display("@ %s", %s);' % (' '.join(['%b'] * len(shown)), ', '.join(shown)))
    out.append('$finish;\nend\nendmodule\n')
    return '\n'.join(out)


def events(g, case):
    """One event per vector: the levels of clocks and reset before it, and what flips."""
    rng = random.Random(g.int(0, 1 << 30))
    ctl = case['clks'] + ([case['rst']] if case['rst'] else [])
    out = []
    for _ in case['vecs']:
        out.append(dict(level=dict((n, rng.randrange(2)) for n in ctl), flip=rng.choice(case['clks'] * 3 + ctl[-1:])))
    case['events'] = out
    return case


def set_state(case, i, prefix='dut.'):
    out = []
    for n, w, a in case['regs']:
        v = case['states'][i][n]
        if a:
            for j in range(a):
                out.append("%s%s[%d] = %d'd%d;" % (prefix, n, j, w, v[j]))
        else:
            out.append("%s%s = %d'd%d;" % (prefix, n, w, v))
    return out
