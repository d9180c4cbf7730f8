"""Generated state machines with their own interpreter (C17, C18)."""
import random

from pv import core


def mask(w):
    return (1 << w) - 1


class Fsm(object):
    """one module with a state register; statements are
    ('set', register, expr) | ('if', cond, then, else) | ('case', expr, [(values, stmt)], default) | ('seq', [stmt]) | None
    and expressions nested tuples, see ev()"""

    def __init__(self, g):
        self.g = g
        self.W = g.choice([1, 2, 2, 2, 3, 3, 4])
        self.name = g.choice(['state', 'fsm', 'main_state', 'step', 'mode', 'cnt_a'])
        self.ins = [('a', 1), ('b', 1)] + [x for x in [('c', g.int(2, 3)), ('d', 3)] if g.bool(0.6)]
        self.w = dict(self.ins)
        self.w[self.name] = self.W
        self.feat = set()
        self.regs = [(self.name, self.W)]
        if g.bool(0.3):
            self.regs.append(('other_state', 2))
            self.w['other_state'] = 2
            self.feat.add('two registers')
        vals = list(range(1 << self.W))
        n = g.int(2, min(6, len(vals)))
        start = g.int(0, len(vals) - n) if g.bool(0.5) else None
        self.codes = vals[start:start + n] if start is not None else sorted(g.perm(vals)[:n])
        self.style = g.choice(['localparam', 'localparam', 'parameter', 'plain'])
        self.labels = dict((v, 'S%d' % i) for i, v in enumerate(self.codes))
        self.wires = []             # (name, expr): one bit
        self.depth = g.int(1, 3)

    # ---------------- expressions
    def const(self, v, w, state=False):
        """a constant, spelled"""
        g = self.g
        if state and self.style != 'plain' and v in self.labels:
            return ('k', v, self.labels[v])
        return ('k', v, g.choice(["%d'd%d" % (w, v), "%d'h%x" % (w, v), "%d'b%s" % (w, bin(v)[2:]), '%d' % v]))

    def statecmp(self, reg=None):
        g = self.g
        reg = reg or self.name
        w = self.w[reg]
        op = g.choice(['==', '==', '==', '!=', '<', '>', '<=', '>=', '===', '!=='])
        v = g.choice(self.codes) if reg == self.name and g.bool(0.8) else g.int(0, mask(w))
        if g.bool(0.04):
            v = mask(w) + g.int(1, 2)
            self.feat.add('unreachable value')
            l, r = ('v', reg), ('k', v, '%d' % v)
        else:
            l, r = ('v', reg), self.const(v, w, reg == self.name)
        if op != '==':
            self.feat.add('compare ' + op)
        if g.bool(0.15):
            self.feat.add('constant first')
            return (op, r, l)
        return (op, l, r)

    def cond(self, depth=2, state=True):
        g = self.g
        k = g.int(0, 15)
        if depth <= 0:
            k = g.choice([0, 0, 0, 1, 2, 3, 4])
        wide = [n for n, w in self.ins if w > 1]
        if k <= 4 and k >= 3 and not wide:
            k = 0
        if k in (1, 5, 6, 7) and not state:
            k = 0
        if k == 0:
            if self.wires and g.bool(0.3):
                n = g.choice(self.wires)
                if state or not n[2]:
                    return ('v', n[0])
            return ('v', g.choice(['a', 'b']))
        if k in (1, 5, 6):
            return self.statecmp(g.choice([r for r, _ in self.regs]))
        if k == 2:
            return (g.choice(['!', '!', '~']), ('v', g.choice(['a', 'b'])))
        if k == 3:
            n = g.choice(wide)
            op = g.choice(['==', '!=', '<', '>', '<=', '>='])
            return (op, ('v', n), self.const(g.int(0, mask(self.w[n])), self.w[n]))
        if k == 4:
            self.feat.add('vector condition')
            n = g.choice(wide)
            return g.choice([('v', n), ('u&', ('v', n)), ('u|', ('v', n)), ('u^', ('v', n)), ('u~&', ('v', n)), ('u~|', ('v', n)), ('!', ('v', n)),
                             ('~', ('v', n)), ('bit', n, g.int(0, self.w[n] - 1)), ('&', ('v', n), ('v', n)),
                             ('&', ('v', n), self.const(g.int(1, mask(self.w[n])), self.w[n]))])
        if k == 7:
            self.feat.add('state bits')
            return g.choice([('bit', self.name, g.int(0, self.W - 1)), ('v', self.name), ('!', ('v', self.name))]) if self.W > 1 else ('v', self.name)
        if k in (8, 9, 10):
            return ('&&', self.cond(depth - 1, state), self.cond(depth - 1, state))
        if k in (11, 12):
            return ('||', self.cond(depth - 1, state), self.cond(depth - 1, state))
        if k == 13:
            return ('!', self.cond(depth - 1, state))
        if k == 14:
            self.feat.add('bitwise condition')
            return (g.choice(['&', '|', '^']), self.bool1(depth - 1, state), self.bool1(depth - 1, state))
        if len(wide) == 2 and self.w['c'] == self.w['d']:
            self.feat.add('vectors &')
            return (g.choice(['&', '|', '^']), ('v', 'c'), ('v', 'd'))
        return ('v', 'a')

    def bool1(self, depth, state):
        """a one-bit expression"""
        g = self.g
        k = g.int(0, 3)
        if k == 0 and state:
            return self.statecmp()
        if k == 1:
            return ('~', ('v', g.choice(['a', 'b'])))
        if k == 2 and depth > 0:
            return ('&&', self.cond(depth - 1, state), self.cond(depth - 1, state))
        return ('v', g.choice(['a', 'b']))

    # ---------------- statements
    def value(self, reg):
        g = self.g
        w = self.w[reg]
        k = g.int(0, 15)
        if k == 15:
            self.feat.add('counting')
            return ('+', ('v', reg), ('k', 1, "%d'd1" % w))
        if k == 14:
            return ('v', reg)
        if k == 13:
            self.feat.add('conditional value')
            return ('?', self.cond(1), self.value(reg), self.value(reg))
        if k == 12 and any(x == w for _, x in self.ins):
            self.feat.add('input value')
            return ('v', g.choice([n for n, x in self.ins if x == w]))
        return self.const(g.choice(self.codes) if reg == self.name else g.int(0, mask(w)), w, reg == self.name)

    def stmt(self, regs, depth):
        g = self.g
        k = g.int(0, 9)
        if depth <= 0 or k <= 2:
            if g.bool(0.1):
                return None
            r = g.choice(regs)
            return ('set', r, self.value(r))
        if k <= 6:
            return ('if', self.cond(), self.stmt(regs, depth - 1), self.stmt(regs, depth - 1) if g.bool(0.6) else None)
        if k == 7:
            return self.case(regs, depth, g.choice([n for n, w in self.ins if w > 1] or [self.name]))
        if k == 8 and len(regs) > 1:
            self.feat.add('sequence')
            return ('seq', [self.stmt([r], depth - 1) for r in g.perm(regs)])
        return self.case(regs, depth, self.name)

    def case(self, regs, depth, name=None):
        g = self.g
        name = name or self.name
        w = self.w[name]
        items = []
        pool = g.perm(self.codes) if name == self.name else g.perm(list(range(1 << w)))
        while pool and len(items) < 5:
            vs = [pool.pop() for _ in range(min(len(pool), g.choice([1, 1, 1, 2])))]
            items.append(([self.const(v, w, name == self.name) for v in vs], self.stmt(regs, depth - 1)))
        self.feat.add('case')
        return ('case', ('v', name), items, self.stmt(regs, depth - 1) if g.bool(0.4) else None)

    def build(self, extra=None):
        g = self.g
        for _ in range(g.choice([0, 0, 1, 2])):
            usest = g.bool(0.4)
            n = 'w%d' % len(self.wires)
            self.wires.append((n, self.cond(1, usest), usest))
            self.feat.add('wire')
        regs = [r for r, _ in self.regs]
        top = g.choice(['case', 'case', 'if', 'any'])
        self.body = self.case(regs, self.depth) if top == 'case' else self.stmt(regs, self.depth)
        if top == 'if':
            self.body = ('if', self.statecmp(), self.stmt(regs, self.depth - 1), self.stmt(regs, self.depth))
        self.reset = g.choice([None, 'sync', 'async', 'async', 'sync'])
        self.rlow = g.bool()
        self.two = g.bool(0.3)
        self.init = [(r, g.choice(self.codes) if r == self.name else 0) for r in regs]

    # ---------------- text
    def text(self, more=''):
        g = self.g
        rst = 'rst_n' if self.rlow else 'rst'
        L = []
        ps = ['clk'] + ([rst] if self.reset else []) + [n for n, _ in self.ins] + [r for r, _ in self.regs]
        L.append('module top(%s);' % ', '.join(ps))
        L.append('input clk;')
        if self.reset:
            L.append('input %s;' % rst)
        for n, w in self.ins:
            L.append('input %s%s;' % ('' if w == 1 else '[%d:0] ' % (w - 1), n))
        for n, w in self.regs:
            L.append('output %s%s;' % ('' if w == 1 else '[%d:0] ' % (w - 1), n))
            L.append('reg %s%s;' % ('' if w == 1 else '[%d:0] ' % (w - 1), n))
        if self.style != 'plain':
            for v, l in self.labels.items():
                L.append('%s %s%s = %s;' % (self.style, '' if g.bool() else '[%d:0] ' % (self.W - 1) if self.W > 1 else '', l,
                                            g.choice(["%d'd%d" % (self.W, v), '%d' % v, "%d'b%s" % (self.W, bin(v)[2:])])))
        for n, e, _ in self.wires:
            L.append('wire %s;' % n)
            # conditions of more than one bit as a truth value
            L.append('assign %s = %s;' % (n, src(('!', ('!', e)))))
        edge = 'posedge clk'
        if self.reset == 'async':
            edge += ' or %s %s' % ('negedge' if self.rlow else 'posedge', rst)
        if self.two:
            self.feat.add('two processes')
            for n, w in self.regs:
                L.append('reg %snext_%s;' % ('' if w == 1 else '[%d:0] ' % (w - 1), n))
            L.append('always @* begin')
            for n, w in self.regs:
                L.append('next_%s = %s;' % (n, n))
            L += lines(self.body, lambda r, e: 'next_%s = %s;' % (r, src(e)), '  ')
            L.append('end')
            body = ['%s <= next_%s;' % (n, n) for n, _ in self.regs]
        else:
            body = lines(self.body, lambda r, e: '%s <= %s;' % (r, src(e)), '  ')
        L.append('always @(%s) begin' % edge)
        if self.reset:
            L.append('if(%s) begin' % (('!' + rst) if self.rlow else rst))
            for r, v in self.init:
                L.append('%s <= %s;' % (r, self.labels[v] if r == self.name and self.style != 'plain' else str(v)))
            L.append('end else begin')
        L += body
        if self.reset:
            L.append('end')
        L.append('end')
        L.append(more)
        L.append('endmodule')
        return '\n'.join(x for x in L if x) + '\n'


def src(e):
    k = e[0]
    if k == 'v':
        return e[1]
    if k == 'k':
        return e[2]
    if k == 'bit':
        return '%s[%d]' % (e[1], e[2])
    if k == '?':
        return '(%s ? %s : %s)' % tuple(src(x) for x in e[1:])
    if k in ('!', '~'):
        return '%s(%s)' % (k, src(e[1])) if e[1][0] not in ('v',) else k + src(e[1])
    if k[0] == 'u':
        return '(%s%s)' % (k[1:], src(e[1]))
    return '(%s %s %s)' % (src(e[1]), k, src(e[2]))


def lines(s, put, ind):
    if s is None:
        return []
    if s[0] == 'set':
        return [ind + put(s[1], s[2])]
    if s[0] == 'seq':
        return [x for y in s[1] for x in lines(y, put, ind)]
    if s[0] == 'if':
        out = [ind + 'if(%s) begin' % src(s[1])] + lines(s[2], put, ind + '  ')
        if s[3] is not None:
            out += [ind + 'end else begin'] + lines(s[3], put, ind + '  ')
        return out + [ind + 'end']
    out = [ind + 'case(%s)' % src(s[1])]
    for vs, b in s[2]:
        out += [ind + '%s: begin' % ', '.join(src(v) for v in vs)] + lines(b, put, ind + '  ') + [ind + 'end']
    if s[3] is not None:
        out += [ind + 'default: begin'] + lines(s[3], put, ind + '  ') + [ind + 'end']
    return out + [ind + 'endcase']


def ev(e, val, wd, wires):
    """(value, width)"""
    k = e[0]
    if k == 'v':
        if e[1] in wires:
            return (1 if ev(wires[e[1]], val, wd, wires)[0] else 0), 1
        return val[e[1]], wd[e[1]]
    if k == 'k':
        return e[1], 0
    if k == 'bit':
        return val[e[1]] >> e[2] & 1, 1
    if k == '?':
        return ev(e[2] if ev(e[1], val, wd, wires)[0] else e[3], val, wd, wires)
    a, w = ev(e[1], val, wd, wires)
    if k == '!':
        return int(not a), 1
    if k == '~':
        return a ^ mask(w), w
    if k[0] == 'u':
        n = bin(a).count('1')
        r = {'&': a == mask(w), '|': a != 0, '^': n & 1}[k[-1]]
        return int(bool(r) != (k[1] == '~')), 1
    b, v = ev(e[2], val, wd, wires)
    w = max(w, v)
    r = {'==': lambda: a == b, '===': lambda: a == b, '!=': lambda: a != b, '!==': lambda: a != b, '<': lambda: a < b, '>': lambda: a > b,
         '<=': lambda: a <= b, '>=': lambda: a >= b, '&&': lambda: bool(a and b), '||': lambda: bool(a or b), '&': lambda: a & b,
         '|': lambda: a | b, '^': lambda: a ^ b, '+': lambda: a + b & mask(w)}[k]()
    return int(r), w if k in '&|^+' else 1


def leaf(e, val, wd, wires):
    """the value expression selected by conditional operators"""
    while e[0] == '?':
        e = e[2] if ev(e[1], val, wd, wires)[0] else e[3]
    return e


def run(s, val, wd, wires, out, path=None):
    """out[register] = selected value expression; path collects the conditions passed"""
    if s is None:
        return
    if s[0] == 'set':
        out[s[1]] = leaf(s[2], val, wd, wires)
    elif s[0] == 'seq':
        for x in s[1]:
            run(x, val, wd, wires, out)
    elif s[0] == 'if':
        run(s[2] if ev(s[1], val, wd, wires)[0] else s[3], val, wd, wires, out)
    else:
        x = ev(s[1], val, wd, wires)[0]
        for vs, b in s[2]:
            if any(ev(v, val, wd, wires)[0] == x for v in vs):
                return run(b, val, wd, wires, out)
        run(s[3], val, wd, wires, out)


def freeze(x):
    return tuple(freeze(y) for y in x) if isinstance(x, (list, tuple)) else x


def valuations(case, n):
    """all values of the state register with all or n random values of the others"""
    rnd = random.Random(case['rnd'])
    others = [(x, w) for x, w in case['ins'] + case['regs'] if x != case['name']]
    bits = sum(w for _, w in others)
    for s in range(1 << dict(map(tuple, case['regs']))[case['name']]):
        for i in range(min(n, 1 << bits)):
            r = i if (1 << bits) <= n else rnd.getrandbits(bits)
            v = {case['name']: s}
            for x, w in others:
                v[x] = r & mask(w)
                r >>= w
            yield v
