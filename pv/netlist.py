"""Generator of modules in which names occur in every position a name can have, for checks that only follow references."""


class Net(object):
    def __init__(self, g):
        self.g = g
        self.k = 0
        self.params, self.sigs, self.mems, self.funcs = [], [], [], []

    def uid(self, p):
        self.k += 1
        return '%s%d' % (p, self.k)

    def const(self):
        """a constant expression with a small value, mostly of parameters"""
        g = self.g
        if not self.params or g.bool(0.3):
            return str(g.int(0, 3))
        p = g.choice(self.params)
        return g.choice([p, p, '%s + %d' % (p, g.int(0, 2)), '%s * %s' % (p, g.choice(self.params)), '(%s + %s)' % (p, g.choice(self.params))])

    def range(self):
        g = self.g
        return g.choice(['', '', '[7:0] ', '[%s:0] ' % self.const(), '[%s:%s] ' % (self.const(), self.const()), '[9:%s] ' % self.const()])

    def ref(self, d):
        g = self.g
        if self.mems and g.bool(0.15):
            m = g.choice(self.mems)
            return '%s[%s]' % (m, self.expr(d - 1) if g.bool() else self.const())
        if not self.sigs:
            return self.const()
        s = g.choice(self.sigs)
        k = g.int(0, 5)
        if k == 0:
            return '%s[%s]' % (s, self.expr(d - 1) if g.bool() else self.const())
        if k == 1:
            return '%s[%s:%s]' % (s, self.const(), self.const())
        return s

    def expr(self, d):
        g = self.g
        k = g.int(0, 9)
        if d <= 0 or k < 3:
            return self.ref(d) if g.bool(0.8) else self.const()
        if k < 5:
            return '(%s %s %s)' % (self.expr(d - 1), g.choice(['&', '|', '^', '+', '-', '<<', '==', '<', '&&', '*']), self.expr(d - 1))
        if k == 5:
            return '%s(%s)' % (g.choice(['~', '!', '&', '|', '-']), self.expr(d - 1))
        if k == 6:
            return '(%s ? %s : %s)' % (self.expr(d - 1), self.expr(d - 1), self.expr(d - 1))
        if k == 7:
            return '{%s}' % ', '.join(self.expr(d - 1) for _ in range(g.int(1, 3)))
        if k == 8 and self.funcs:
            f, n = g.choice(self.funcs)
            return '%s(%s)' % (f, ', '.join(self.expr(d - 1) for _ in range(n)))
        return '{%s + 1{%s}}' % (g.choice(self.params) if self.params else '1', self.expr(d - 1))

    def lhs(self, s):
        g = self.g
        k = g.int(0, 5)
        if k == 0:
            return '%s[%s:%s]' % (s, self.const(), self.const())
        if k == 1:
            return '%s[%s]' % (s, self.const())
        return s

    def stmt(self, targets, op, d):
        g = self.g
        k = g.int(0, 5)
        if d > 0 and k == 0:
            return 'if(%s) begin %s end%s' % (self.expr(1), self.stmt(targets, op, d - 1),
                                              ' else begin %s end' % self.stmt(targets, op, d - 1) if g.bool() else '')
        if d > 0 and k == 1:
            items = ' '.join('%s: %s' % (self.const(), self.stmt(targets, op, d - 1)) for _ in range(g.int(1, 2)))
            return 'case(%s) %s %s endcase' % (self.expr(1), items, 'default: ' + self.stmt(targets, op, d - 1) if g.bool() else '')
        t = g.choice(targets)
        if t in self.mems:
            left = '%s[%s]' % (t, self.expr(1) if g.bool() else self.const())
        else:
            left = self.lhs(t)
        return '%s %s %s;' % (left, op, self.expr(2))

    def module(self, name, subs=()):
        g = self.g
        self.params, self.sigs, self.mems, self.funcs = [], [], [], []
        head, body = [], []
        for i in range(g.int(0, 3)):
            p = self.uid('P')
            head.append('parameter %s%s = %d' % (g.choice(['', '', '[3:0] ']), p, g.int(0, 3)))
            self.params.append(p)
        for i in range(g.int(0, 2)):
            p = self.uid('L')
            body.append('localparam %s = %s;' % (p, self.const()))
            self.params.append(p)
        clks = ['CLK', 'clk2'][:g.int(1, 2)]
        ports = ['input ' + c for c in clks + ['RST']]
        ins = []
        for i in range(g.int(1, 3)):
            s = self.uid('i')
            rng = self.range() if not body else '[7:0] '
            ports.append('input %s%s' % (rng, s))
            ins.append(s)
            self.sigs.append(s)
        outs = []
        for i in range(g.int(1, 2)):
            s = self.uid('o')
            ports.append('output [7:0] %s' % s)
            outs.append(s)
        later = list(outs)
        if g.bool(0.4):
            f, n = self.uid('f'), g.int(1, 2)
            args = [self.uid('a') for _ in range(n)]
            save, self.sigs, sm, self.mems = self.sigs, args, self.mems, []
            body.append('function [7:0] %s; input [7:0] %s; %s = %s; endfunction' % (f, ', '.join(args), f, self.expr(2)))
            self.sigs, self.mems = save, sm
            self.funcs.append((f, n))
        regs = []
        for i in range(g.int(1, 4)):
            k = g.int(0, 4)
            s = self.uid('w')
            if k <= 1:
                body.append('wire %s%s;' % (self.range(), s))
                later.append(s)
            elif k == 2 and g.bool(0.6):
                s = self.uid('m')
                body.append('reg %s%s [0:%s];' % (self.range(), s, self.const()))
                self.mems.append(s)
                regs.append(s)
                continue
            else:
                body.append('reg %s%s;' % (self.range(), s))
                regs.append(s)
            self.sigs.append(s)
        items = []
        for s in later:
            if subs and g.bool(0.3):
                m, mi, mo, mp = g.choice(subs)
                over = ['.%s(%s)' % (p, self.const()) for p in mp if g.bool()]
                items.append('%s %s%s(%s);' % (m, '#(%s) ' % ', '.join(over) if over else '', self.uid('u'), ', '.join(
                    ['.%s(%s)' % (c, g.choice(clks)) for c in ('CLK', 'RST')] + ['.%s(%s)' % (x, self.expr(1)) for x in mi] +
                    ['.%s(%s)' % (mo[0], s)])))
            elif g.bool(0.8):
                items.append('assign %s = %s;' % (self.lhs(s), self.expr(2)))
        while regs:
            ts = [regs.pop() for _ in range(min(len(regs), g.int(1, 2)))]
            k = g.int(0, 4)
            if k == 0:
                items.append('always @* begin %s end' % ' '.join(self.stmt(ts, '=', 2) for _ in ts))
            elif k == 1:
                items.append('always @(posedge %s or negedge RST) if(!RST) begin %s end else begin %s end' % (
                    g.choice(clks), self.stmt(ts, '<=', 0), self.stmt(ts, '<=', 2)))
            else:
                items.append('always @(%s %s) begin %s end' % (g.choice(['posedge', 'posedge', 'negedge']), g.choice(clks),
                                                               ' '.join(self.stmt(ts, '<=', 2) for _ in ts)))
        items = [items.pop(g.int(0, len(items) - 1)) for _ in range(len(items))]
        text = 'module %s%s(%s);\n%s\nendmodule\n' % (name, ' #(%s)' % ', '.join(head) if head else '', ', '.join(ports), '\n'.join(body + items))
        return text, (name, ins, outs, [h.split()[-3] for h in head])


def gen(g):
    n = Net(g)
    texts, subs = [], []
    for i in range(g.choice([0, 0, 1, 2])):
        t, s = n.module('m%d' % i, subs)
        texts.append(t)
        subs.append(s)
    t, _ = n.module('top', subs)
    return ''.join(texts) + t
