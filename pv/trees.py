"""Generated dataflow trees (as nested lists) over a fixed set of signals.

Constants that overflow their own width are avoided: how wide a constant sum is
depends on where it stands in the Verilog text, which a tree does not say.
Arithmetic operators therefore get at least one operand that no simplification
can turn into a constant.
"""
SIGS = [  # name, msb, lsb, depth, constant
    ('a', 0, 0, None, None), ('b', 0, 0, None, None), ('p', 3, 0, None, None), ('q', 3, 0, None, None),
    ('r', 4, 1, None, None), ('s', 7, 0, None, None), ('w', 7, 2, None, None), ('n', 31, 0, None, None),
    ('m', 3, 0, 4, None), ('k', 4, 1, 4, None), ('K', 3, 0, None, 6), ('L', 5, 2, None, 9), ('Z', 0, 0, None, 0), ('I', 31, 0, None, 2)]
BYNAME = dict((s[0], s) for s in SIGS)
BITS = ['And', 'Or', 'Xor', 'Xnor']
ARITH = ['Plus', 'Minus', 'Times', 'Divide', 'Mod']
CMPS = ['Eq', 'NotEq', 'LessThan', 'GreaterThan', 'LessEq', 'GreaterEq', 'Eql', 'NotEql']
REDS = ['Uand', 'Uor', 'Uxor', 'Unand', 'Unor', 'Uxnor']
SCOPE = 'm'


def width(t):
    k = t[0]
    if k == 't':
        return BYNAME[t[1]][1] - BYNAME[t[1]][2] + 1
    if k == 'i':
        return int(t[1].split("'")[0]) if "'" in t[1] else 32
    if k in 'vu':
        return t[-1]
    if k == 'op':
        if t[1] in CMPS or t[1] in REDS or t[1] in ('Land', 'Lor', 'Ulnot'):
            return 1
        if t[1] in ('Sll', 'Srl', 'Sra', 'Sla', 'Power'):
            return width(t[2][0])
        return max(width(x) for x in t[2])
    if k == 'c':
        return sum(width(x) for x in t[1])
    if k == 'p':
        return 1 if t[2] == t[3] else t[4]
    if k == 'a':
        if t[1][0] == 't' and BYNAME[t[1][1]][3]:
            return width(t[1])
        return 1
    if k == 'b':
        return max([width(x) for x in t[2:4] if x is not None] or [1])


def live(t):
    k = t[0]
    if k == 't':
        return BYNAME[t[1]][4] is None
    if k in 'pa':
        return live(t[1]) and t[1][0] == 't'
    if k == 'op':
        return (t[1] in ('Plus', 'Minus', 'Times') and any(live(x) for x in t[2])) or (t[1] in ('Unot', 'Uminus') and live(t[2][0]))
    return False


def offset(t):
    """The index that selects the lowest bit of t."""
    if t[0] == 'a':
        t = t[1]
        return BYNAME[t[1]][2] if t[0] == 't' and BYNAME[t[1]][3] else 0
    return BYNAME[t[1]][2] if t[0] == 't' else 0


class Trees(object):
    def __init__(self, g, undefined=False, branch=True, cond_branch=True, arrays=True, consts=True):
        self.g = g
        self.undefined = undefined
        self.branch = branch
        self.cond_branch = cond_branch
        self.arrays = arrays
        self.consts = consts
        self.pool = []
        self.feat = set()

    def note(self, t):
        self.pool.append(t)
        return t

    def sig(self, w=None, live=False):
        ss = [s for s in SIGS if s[3] is None and (w is None or s[1] - s[2] + 1 == w)
              and (s[4] is None or (self.consts and not live))]
        return ['t', self.g.choice(ss)[0]] if ss else None

    def const(self, w=None):
        g = self.g
        if w is None:
            w = g.choice([1, 2, 4, 4, 8, 32])
        v = g.weighted([(2, 0), (2, 1), (1, (1 << w) - 1 if w < 32 else 7), (3, 'r')])
        if v == 'r':
            v = g.int(0, min((1 << w) - 1, 255))
        if w == 32 and g.bool(0.7):
            return ['i', str(v)]
        k = g.int(0, 3)
        if k == 0:
            return ['v', v, w]
        return ['i', "%d'%s" % (w, {1: 'd%d' % v, 2: 'h%x' % v, 3: 'b' + format(v, 'b')}[k])]

    def leaf(self, w=None):
        g = self.g
        t = self.sig(w) if g.bool(0.7) else None
        if t is None and w is not None and w < 8 and g.bool(0.5):
            t = self.part(w)
        return t or self.const(w)

    def part(self, w=None):
        """Part or bit of a signal."""
        g = self.g
        s = self.sig()
        W = width(s)
        if w is None:
            w = g.int(1, W)
        if w > W:
            return None
        lo = g.int(0, W - w) + BYNAME[s[1]][2]
        if w == 1 and g.bool(0.6):
            return ['a', s, ['i', str(lo)]]
        return self.mkpart(s, lo + w - 1, lo)

    def mkpart(self, var, hi, lo):
        g = self.g
        mk = (lambda v: ['v', v, 32]) if g.bool(0.3) else (lambda v: ['i', str(v)])
        a, b = mk(hi), mk(lo)
        if g.bool(0.1):
            a = ['op', 'Minus', [['op', 'Plus', [mk(lo), mk(hi - lo + 1)]], mk(1)]]
        return ['p', var, a, b, hi - lo + 1]

    def expr(self, d, w=None):
        """A tree; of width w if given, as far as that is possible."""
        g = self.g
        if d <= 0:
            return self.note(self.leaf(w))
        if self.pool and g.bool(0.12):
            c = [t for t in self.pool if w is None or width(t) == w]
            if c:
                self.feat.add('repeat')
                return g.choice(c)
        k = g.weighted([(2, 'leaf'), (4, 'bits'), (2, 'not'), (2, 'arith'), (3, 'cmp'), (4, 'log'), (1, 'lnot'), (1, 'red'),
                        (1, 'shift'), (4, 'cat'), (4, 'part'), (1 if self.arrays else 0, 'elem'), (4 if self.branch else 0, 'branch'),
                        (1 if self.undefined else 0, 'undef'), (3, 'dual'), (1, 'dyn')])
        if w is not None and w != 1 and k in ('cmp', 'log', 'lnot', 'red', 'dual'):
            k = g.choice(['bits', 'cat', 'branch' if self.branch else 'cat', 'part'])
        t = getattr(self, 'k_' + k)(d - 1, w)
        if t is None:
            t = self.leaf(w)
        self.feat.add(k)
        return self.note(t)

    def k_leaf(self, d, w):
        return self.leaf(w)

    def k_undef(self, d, w):
        return ['u', w or self.g.int(1, 8)]

    def operands(self, d, w):
        g = self.g
        if w is None:
            w = g.choice([1, 1, 4, 4, 8, None])
        v = w if g.bool(0.85) else (None if w is None else g.int(1, w))
        a = [self.expr(d, w), self.expr(d, v)]
        return a if g.bool(0.8) else a[::-1]

    def k_bits(self, d, w):
        return ['op', self.g.choice(BITS), self.operands(d, w)]

    def k_not(self, d, w):
        return ['op', 'Unot', [self.expr(d, w)]]

    def k_arith(self, d, w):
        g = self.g
        a = self.sig(w, live=True) or self.sig(None, live=True)
        b = self.expr(d, width(a) if g.bool(0.8) else None)
        if g.bool(0.3):
            b = ['i', str(g.choice([1, 2, 4, 8]))] if g.bool() else ["v", g.choice([1, 2, 4, 8]), max(4, width(a))]
        op = g.choice(ARITH)
        if g.bool(0.2):                # constants, without overflow
            W = g.choice([4, 8, 32])
            x, y = g.int(1, 15), g.int(1, 15)
            op = g.choice(ARITH + ['Power', 'Sll', 'Srl', 'Sra', 'Sla'])
            f = {'Plus': x + y, 'Minus': x - y, 'Times': x * y, 'Power': x ** y, 'Sll': x << y, 'Sla': x << y}
            if 0 <= f.get(op, 0) < 1 << min(W, 31):
                c = lambda v: ['v', v, W] if g.bool() else ['i', str(v) if W == 32 else "%d'd%d" % (W, v)]
                return ['op', op, [c(x), c(y)]]
        return ['op', op, [a, b] if g.bool(0.7) else [b, a]]

    def k_cmp(self, d, w):
        g = self.g
        if g.bool(0.4):                # signal against constant
            a = self.sig(g.choice([1, 4, 4, 8]))
            return ['op', g.choice(CMPS + ['Eq'] * 4), [a, self.const(width(a))] if g.bool(0.8) else [self.const(width(a)), a]]
        return ['op', g.choice(CMPS), self.operands(d, None)]

    def k_log(self, d, w):
        g = self.g
        n = g.int(2, 3)
        op = g.choice(['Land', 'Lor'])
        t = None
        for i in range(n):
            x = self.expr(d, 1 if g.bool(0.75) else None)
            if g.bool(0.3):
                x = ['op', 'Ulnot', [x]]
            t = x if t is None else (['op', op, [t, x]] if g.bool(0.7) else ['op', op, [x, t]])
        return t

    def k_lnot(self, d, w):
        return ['op', 'Ulnot', [self.expr(d, None)]]

    def k_red(self, d, w):
        return ['op', self.g.choice(REDS), [self.expr(d, None)]]

    def k_shift(self, d, w):
        g = self.g
        a = self.sig(w, live=True)
        if a is None:
            return None
        n = ['i', str(g.int(0, 5))] if g.bool() else self.expr(d - 1, g.choice([1, 2]))
        return ['op', g.choice(['Sll', 'Srl', 'Sra', 'Sla']), [a, n]]

    def k_dual(self, d, w):
        """Shapes that invite simplification."""
        g = self.g
        k = g.int(0, 5)
        x = self.expr(d, g.choice([1, 1, 4]))
        if k == 0:
            nx = ['op', g.choice(['Unot', 'Ulnot']), [x]]
            o = [x, nx] if g.bool() else [nx, x]
            return ['op', g.choice(['And', 'Or', 'Land', 'Lor']), o]
        if k == 1:
            c = self.const(g.choice([1, 1, width(x)]))
            o = [x, c] if g.bool() else [c, x]
            return ['op', g.choice(['And', 'Or', 'Land', 'Lor']), o]
        if k == 2:
            return ['op', g.choice(BITS + CMPS + ['Land', 'Lor']), [x, x]]
        if k == 3:                     # contradicting or implied comparisons
            s = self.sig(4)
            def eq():
                c = self.const(4)
                return ['op', 'Eq', [s, c] if g.bool() else [c, s]]
            a, b = eq(), eq()
            if g.bool():
                a = ['op', 'Ulnot', [a]]
            return ['op', g.choice(['Land', 'Lor']), [a, b] if g.bool() else [b, a]]
        if k == 4:                     # (x && y) || (!x && y)
            y = self.expr(d, g.choice([1, 1, 4]))
            nx = ['op', 'Ulnot', [x]]
            a = ['op', 'Land', [x, y] if g.bool() else [y, x]]
            b = ['op', 'Land', [nx, y] if g.bool() else [y, nx]]
            return ['op', 'Lor', [a, b] if g.bool() else [b, a]]
        return ['op', 'Land', [['op', 'Land', [x, self.expr(d - 1, 1)]], ['op', 'Ulnot', [x]]]]

    def k_cat(self, d, w):
        g = self.g
        n = g.int(1, 3)
        if w is None:
            w = g.int(n, 9)
        if w > 16:
            return None
        k = g.int(0, 3)
        if k == 0:                     # neighbouring parts of one signal
            s = self.sig()
            W, lo = width(s), BYNAME[s[1]][2]
            if 2 <= W <= 8:
                cuts = sorted(set(g.int(1, W - 1) for _ in range(g.int(1, 2))))
                parts = []
                for l, h in zip([0] + cuts, cuts + [W]):
                    parts.append(self.mkpart(s, lo + h - 1, lo + l))
                if g.bool(0.3):
                    parts.pop(g.int(0, len(parts) - 1))
                parts = parts[::-1]
                if g.bool(0.2):
                    parts = g.perm(parts)
                if g.bool(0.4):
                    parts.insert(g.int(0, len(parts)), self.expr(d, g.int(1, 3)))
                return ['c', parts]
        if k == 1 and self.branch:     # branches under one condition
            c = self.cond(d)
            ws = [g.int(1, 4) for _ in range(g.int(2, 3))]
            parts = [self.mkbranch(c, d, x) for x in ws]
            if g.bool(0.3):
                parts.insert(g.int(0, len(parts)), self.expr(d, g.int(1, 3)))
            return ['c', parts]
        ws = []
        rest = w
        for i in range(n - 1):
            if rest > 1:
                x = g.int(1, rest - 1)
                ws.append(x)
                rest -= x
        ws.append(rest)
        return ['c', [self.expr(d, x) for x in ws]]

    def cond(self, d):
        g = self.g
        if not self.cond_branch:
            old, self.branch = self.branch, False
            c = self.expr(d, 1 if g.bool(0.7) else None)
            self.branch = old
            return c
        return self.expr(d, 1 if g.bool(0.7) else None)

    def mkbranch(self, c, d, w):
        g = self.g
        a = self.expr(d, w)
        b = self.expr(d, width(a))
        n = width(a) - width(b)        # a branch does not extend what it selects
        if n > 0:
            b = ['c', [['i', "%d'd0" % n], b]]
        elif n < 0:
            a = ['c', [['i', "%d'd0" % -n], a]]
        return ['b', c, a, b]

    def latch(self, d):
        """A tree with branches that leave the value as it was."""
        g = self.g
        if d <= 0 or g.bool(0.2):
            return self.expr(d, 4)
        t = [self.latch(d - 1), self.latch(d - 1)]
        if g.bool(0.4):
            t[g.int(0, 1)] = None
        return ['b', self.cond(d - 1)] + t

    def k_branch(self, d, w):
        return self.mkbranch(self.cond(d), d, w)

    def k_part(self, d, w):
        g = self.g
        k = g.int(0, 3)
        if k == 0:
            return self.part(w)
        v = self.expr(d, None if w is None else w + g.int(0, 4))
        if k == 1:
            v = self.k_cat(d, None if w is None else w + g.int(0, 4)) or v
        if v[0] == 'i' and "'" not in v[1]:
            return None
        W = width(v)
        n = w or g.int(1, min(W, 8))
        if n > W:
            return None
        o = offset(v)
        if v[0] == 't' and BYNAME[v[1]][3]:
            return None
        if v[0] == 'b' and has_offset(v):
            return None
        lo = g.int(0, W - n) + o
        if n == 1 and g.bool(0.3) and v[0] != 'a':
            return ['a', v, ['i', str(lo)]]
        return self.mkpart(v, lo + n - 1, lo)

    def k_elem(self, d, w):
        g = self.g
        n = g.choice(['m', 'k'])
        p = ['i', str(g.int(0, 3))] if g.bool(0.4) else self.expr(d - 1, 2)
        return ['a', ['t', n], p]

    def k_dyn(self, d, w):
        """Bit or part select at a variable position."""
        g = self.g
        s = g.choice(['s', 'p', 'r', 'K', 'L'])
        if w not in (None, 1):
            i = self.expr(d - 1, 1)
            if w > width(['t', s]) - 1:
                return None
            wid = ['i', str(w)]
            if BYNAME[s][2]:
                return None
            return ['p', ['t', s], ['op', 'Minus', [['op', 'Plus', [i, wid]], ['i', '1']]], i, w]
        return ['a', ['t', s], self.expr(d - 1, 2)]


def has_offset(t):
    if t[0] == 'b':
        return any(has_offset(x) for x in t[2:4] if x is not None)
    return offset(t) != 0


def build(t, df=None, memo=None):
    """The dataflow tree a nested list stands for."""
    if df is None:
        import pyverilog.dataflow.dataflow as df
    if t is None:
        return None
    k = t[0]
    b = lambda x: build(x, df)
    if k == 't':
        return df.DFTerminal(scope(t[1]))
    if k == 'i':
        return df.DFIntConst(t[1])
    if k == 'v':
        return df.DFEvalValue(t[1], t[2])
    if k == 'u':
        return df.DFUndefined(t[1])
    if k == 'op':
        return df.DFOperator(tuple(b(x) for x in t[2]), t[1])
    if k == 'c':
        return df.DFConcat(tuple(b(x) for x in t[1]))
    if k == 'p':
        return df.DFPartselect(b(t[1]), b(t[2]), b(t[3]))
    if k == 'a':
        return df.DFPointer(b(t[1]), b(t[2]))
    return df.DFBranch(b(t[1]), b(t[2]), b(t[3]))


def scope(n):
    from pyverilog.utils.scope import ScopeLabel, ScopeChain
    return ScopeChain([ScopeLabel(SCOPE, 'module'), ScopeLabel(n, 'signal')])


def terms():
    import pyverilog.dataflow.dataflow as df
    out = {}
    for n, msb, lsb, depth, const in SIGS:
        dims = ((df.DFIntConst('0'), df.DFIntConst(str(depth - 1))),) if depth else None
        out[scope(n)] = df.Term(scope(n), set(['Parameter'] if const is not None else ['Wire']),
                                df.DFIntConst(str(msb)), df.DFIntConst(str(lsb)), dims)
    return out


def constants():
    import pyverilog.dataflow.dataflow as df
    return dict((scope(s[0]), df.DFEvalValue(s[4], s[1] - s[2] + 1)) for s in SIGS if s[4] is not None)


def valuation(g):
    v = {}
    mode = g.weighted([(5, 'rand'), (1, 'zero'), (1, 'ones'), (2, 'same')])
    same = g.int(0, 255)
    for n, msb, lsb, depth, const in SIGS:
        w = msb - lsb + 1
        def one():
            m = (1 << w) - 1
            if mode == 'zero' or (mode == 'rand' and g.bool(0.15)):
                return 0
            if mode == 'ones' or (mode == 'rand' and g.bool(0.1)):
                return m
            return (same if mode == 'same' else g.int(0, 255)) & m
        if const is not None:
            v[n] = const
        elif depth:
            v[n] = [one() for _ in range(depth)]
        else:
            v[n] = one()
    return v


def vals(v):
    return dict((str(scope(n)), dict(enumerate(x)) if isinstance(x, list) else x) for n, x in v.items())
