"""Evaluation of Pyverilog dataflow trees under a valuation, written from the
meaning of the nodes (IEEE 1364 operators on vectors of the width of each
node), without using any Pyverilog evaluation code.

Values are (bits, xbits, width); xbits marks unknown bits.
"""
import re


class EvalError(Exception):
    """The tree says something that has no meaning (a defect of the tree)."""


class Loop(Exception):
    pass


def mask(w):
    return (1 << w) - 1


def X(w):
    return (0, mask(w), w)


INT_RE = re.compile(r"^(\d*)'([sS]?)([bBoOdDhH])([0-9a-fA-FxXzZ?]+)$")
BASE = {'b': 1, 'o': 3, 'h': 4}


def int_literal(s):
    """(bits, xbits, width) of a literal as IEEE 1364 reads it."""
    t = s.replace('_', '').replace(' ', '')
    m = INT_RE.match(t)
    if not m:
        v = int(t)
        return (v & mask(32), 0, 32)
    width = int(m.group(1)) if m.group(1) else 32
    base = m.group(3).lower()
    digits = m.group(4).lower()
    if base == 'd':
        if any(c in 'xz?' for c in digits):
            return X(width)
        return (int(digits) & mask(width), 0, width)
    k = BASE[base]
    v = x = 0
    for c in digits:
        v <<= k
        x <<= k
        if c in 'xz?':
            x |= mask(k)
        else:
            v |= int(c, 16)
    n = k * len(digits)
    if digits[0] in 'xz?' and n < width:
        x |= mask(width) & ~mask(n)
    return (v & mask(width), x & mask(width), width)


def ext(v, w):
    b, x, vw = v
    return (b & mask(w), x & mask(w), w)


COMPARE = {'LessThan', 'GreaterThan', 'LessEq', 'GreaterEq', 'Eq', 'NotEq', 'Eql', 'NotEql'}


def truth(v):
    """True, False or None (unknown)."""
    b, x, w = v
    if b & ~x:
        return True
    if x:
        return None
    return False


def operate(op, vs):
    w = max(v[2] for v in vs)
    if len(vs) == 1:
        b, x, w = vs[0]
        m = mask(w)
        if op == 'Unot':
            return (~b & m & ~x, x, w)
        if op == 'Ulnot':
            t = truth(vs[0])
            return X(1) if t is None else (int(not t), 0, 1)
        if op == 'Uminus':
            return X(w) if x else (-b & m, 0, w)
        if op == 'Uplus':
            return X(w) if x else vs[0]
        if op in ('Uand', 'Unand'):
            if (~b & ~x) & m:
                r = 0
            elif x:
                return X(1)
            else:
                r = 1
            return (r ^ (op == 'Unand'), 0, 1)
        if op in ('Uor', 'Unor'):
            t = truth(vs[0])
            return X(1) if t is None else (int(t) ^ (op == 'Unor'), 0, 1)
        if op in ('Uxor', 'Uxnor'):
            return X(1) if x else ((bin(b).count('1') & 1) ^ (op == 'Uxnor'), 0, 1)
        raise EvalError('unknown unary operator %s' % op)
    if len(vs) != 2:
        raise EvalError('%d operands for %s' % (len(vs), op))
    if op in ('Land', 'Lor'):
        a, b = truth(vs[0]), truth(vs[1])
        if op == 'Land':
            if a is False or b is False:
                return (0, 0, 1)
            return X(1) if a is None or b is None else (1, 0, 1)
        if a or b:
            return (1, 0, 1)
        return X(1) if a is None or b is None else (0, 0, 1)
    if op in ('Sll', 'Srl', 'Sla', 'Sra', 'Power'):
        (a, ax, w), (n, nx, _) = vs
        if nx or (op == 'Power' and ax):
            return X(w)
        if op in ('Sll', 'Sla'):
            return (0, 0, w) if n >= w else ((a << n) & mask(w), (ax << n) & mask(w), w)
        if op in ('Srl', 'Sra'):
            return (a >> n, ax >> n, w)
        return (pow(a, n, 1 << w) if n < 1 << 20 else 0, 0, w)
    (a, ax, _), (b, bx, _) = ext(vs[0], w), ext(vs[1], w)
    m = mask(w)
    if op == 'And':
        x = (ax | bx) & ~((~a & ~ax) | (~b & ~bx)) & m
        return (a & b & ~x & m, x, w)
    if op == 'Or':
        one = (a & ~ax) | (b & ~bx)
        x = (ax | bx) & ~one & m
        return ((a | b) & ~x & m, x, w)
    if op == 'Xor':
        x = ax | bx
        return ((a ^ b) & ~x & m, x, w)
    if op == 'Xnor':
        x = ax | bx
        return (~(a ^ b) & ~x & m, x, w)
    x = ax | bx
    if op in COMPARE:
        if x:
            return X(1)
        r = {'LessThan': a < b, 'GreaterThan': a > b, 'LessEq': a <= b, 'GreaterEq': a >= b,
             'Eq': a == b, 'NotEq': a != b, 'Eql': a == b, 'NotEql': a != b}[op]
        return (int(r), 0, 1)
    if x:
        return X(w)
    if op == 'Plus':
        return ((a + b) & m, 0, w)
    if op == 'Minus':
        return ((a - b) & m, 0, w)
    if op == 'Times':
        return ((a * b) & m, 0, w)
    if op == 'Divide':
        return X(w) if b == 0 else (a // b, 0, w)
    if op == 'Mod':
        return X(w) if b == 0 else (a % b, 0, w)
    raise EvalError('unknown operator %s' % op)


class Hold(Exception):
    """A branch without value was reached: the destination keeps its value."""


class Eval(object):
    """terms, binddict: what the analysis returned.
    vals: str(name) -> int, or {index: int} for arrays; these win over binds.
    stop: do not follow binds of names where stop(name, bind) is true.
    """

    def __init__(self, terms, binddict, vals, limit=200000):
        self.terms = terms
        self.binddict = binddict
        self.vals = vals
        self.ranges = {}
        self.memo = {}
        self.widths = {}          # by id: the trees outlive this object
        self.values = {}
        self.limit = limit
        self.active = set()
        self.bykey = None

    # ---- terms ------------------------------------------------------------
    def range(self, name):
        k = str(name)
        if k not in self.ranges:
            t = self.terms.get(name)
            if t is None:
                raise EvalError('no term %s' % k)
            self.ranges[k] = (0, 0)          # while the bounds are evaluated
            if t.msb is None:
                self.ranges[k] = (0, 0)
            else:
                self.ranges[k] = (self.number(t.msb), self.number(t.lsb))
        return self.ranges[k]

    def number(self, tree):
        """A constant tree as a mathematical integer."""
        if type(tree).__name__ == 'DFEvalValue':
            return int(tree.value)
        b, x, w = self.eval(tree)
        if x:
            raise EvalError('unknown constant')
        if w >= 32 and b >> (w - 1):
            b -= 1 << w
        return b

    def term(self, name, hi=None, lo=None, ptr=None):
        """Bits hi..lo (declared indices, None: all) of a signal (element ptr)."""
        k = str(name)
        msb, lsb = self.range(name)
        if msb < lsb:
            raise EvalError('ascending range of %s' % k)
        if hi is None:
            hi, lo = msb, lsb
        w = hi - lo + 1
        if w <= 0:
            raise EvalError('reversed part select [%d:%d] of %s' % (hi, lo, k))
        if k in self.vals:
            v = self.vals[k]
            if isinstance(v, dict):
                if ptr is None:
                    raise EvalError('array %s without index' % k)
                if ptr not in v:
                    return X(w)
                v = v[ptr]
            elif ptr is not None:
                raise EvalError('index on %s' % k)
            return self.cut((v, 0, msb - lsb + 1), hi - lsb, lo - lsb)
        mk = (k, hi, lo, ptr)
        if mk in self.memo:
            return self.memo[mk]
        if mk in self.active:
            raise Loop(k)
        self.active.add(mk)
        bits, x = 0, mask(w)
        for b in self.binddict.get(name, ()):
            r = self.bind_part(b, hi, lo, ptr, msb, lsb)
            if r is None:
                continue
            bhi, blo, (vb, vx, vw) = r
            # bits bhi..blo of the destination take vb
            m = mask(bhi - blo + 1) << (blo - lo)
            bits = (bits & ~m) | ((vb << (blo - lo)) & m)
            x = (x & ~m) | ((vx << (blo - lo)) & m)
        self.active.discard(mk)
        self.memo[mk] = (bits, x, w)
        return self.memo[mk]

    def bind_range(self, b, msb, lsb):
        if b.msb is None:
            return msb, lsb
        return self.number(b.msb), self.number(b.lsb)

    def bind_part(self, b, hi, lo, ptr, msb, lsb):
        """The part of bind b that covers hi..lo: (hi, lo, value) or None."""
        if ptr is not None:
            if b.ptr is None or self.number(b.ptr) != ptr:
                return None
        bmsb, blsb = self.bind_range(b, msb, lsb)
        h, l = min(hi, bmsb), max(lo, blsb)
        if h < l:
            return None
        if l > blsb or h < bmsb:
            # only a slice is needed; evaluate lazily where the tree allows it
            return h, l, self.slice(b.tree, h - blsb, l - blsb, bmsb - blsb + 1)
        try:
            v = self.eval(b.tree)
        except Hold:
            v = X(bmsb - blsb + 1)
        return h, l, ext(v, bmsb - blsb + 1)

    def slice(self, tree, hi, lo, width):
        c = type(tree).__name__
        try:
            if c == 'DFTerminal' and self.terms[tree.name].dims is None:
                m, l = self.range(tree.name)
                if m - l + 1 >= hi + 1:
                    return self.term(tree.name, l + hi, l + lo)
            if c == 'DFConcat':
                return self.cut_concat(tree, hi, lo)
            if c == 'DFBranch':
                t = truth(self.eval(tree.condnode))
                if t is None:
                    return X(hi - lo + 1)
                return self.slice(tree.truenode if t else tree.falsenode, hi, lo, width)
            if c == 'NoneType':
                return X(hi - lo + 1)
            return self.cut(self.eval(tree), hi, lo)
        except Hold:
            return X(hi - lo + 1)

    def cut_concat(self, tree, hi, lo):
        pos = 0
        bits = x = 0
        for n in reversed(tree.nextnodes):
            w = self.width(n)
            h, l = min(hi, pos + w - 1), max(lo, pos)
            if h >= l:
                vb, vx, _ = self.slice(n, h - pos, l - pos, w)
                bits |= vb << (l - lo)
                x |= vx << (l - lo)
            pos += w
        return (bits, x, hi - lo + 1)

    def cut(self, v, hi, lo):
        b, x, w = v
        n = hi - lo + 1
        if n <= 0:
            raise EvalError('reversed part select')
        if lo < 0:
            raise EvalError('negative index')
        over = mask(n) & ~(mask(max(0, w - lo)))
        return ((b >> lo) & mask(n) & ~over, ((x >> lo) & mask(n)) | over, n)

    # ---- trees ------------------------------------------------------------
    def either(self, t):
        """Value of a conditional under an unknown condition: what both alternatives agree on."""
        vs = []
        for n in (t.truenode, t.falsenode):
            try:
                vs.append(self.eval(n))
            except Hold:
                pass
        if not vs:
            raise Hold()
        w = max(self.width(t), max(v[2] for v in vs))
        if len(vs) == 1:
            return X(w)
        (b, x, _), (c, y, _) = ext(vs[0], w), ext(vs[1], w)
        x |= y | (b ^ c)
        return (b & ~x, x, w)

    def width(self, t):
        k = id(t)
        if k not in self.widths:
            self.widths[k] = self.width1(t)
        return self.widths[k]

    def width1(self, t):
        c = type(t).__name__
        if c == 'DFTerminal':
            m, l = self.range(t.name)
            return m - l + 1
        if c == 'DFConcat':
            return sum(self.width(n) for n in t.nextnodes)
        if c == 'DFPartselect':
            m, l = t.msb, t.lsb
            if m == l:
                return 1
            return self.number(m) - self.number(l) + 1
        if c == 'DFBranch':
            ws = [self.width(n) for n in (t.truenode, t.falsenode) if n is not None]
            if not ws:
                raise Hold()
            return max(ws)
        if c == 'DFPointer':
            if type(t.var).__name__ == 'DFTerminal' and self.terms[t.var.name].dims is not None:
                return self.width(t.var)
            return 1
        if c == 'DFIntConst':
            return int_literal(t.value)[2]
        if c in ('DFEvalValue', 'DFUndefined', 'DFHighImpedance'):
            return 32 if t.width is None else t.width
        if c == 'DFOperator':
            if t.operator in COMPARE or t.operator in ('Land', 'Lor', 'Ulnot', 'Uand', 'Uor', 'Uxor', 'Unand', 'Unor', 'Uxnor'):
                return 1
            if t.operator in ('Sll', 'Srl', 'Sla', 'Sra', 'Power'):
                return self.width(t.nextnodes[0])
            return max(self.width(n) for n in t.nextnodes)
        raise EvalError('no width for %s' % c)

    def eval(self, t):
        k = id(t)
        if k not in self.values:
            try:
                self.values[k] = self.eval1(t)
            except Hold:
                self.values[k] = None
        if self.values[k] is None:
            raise Hold()
        return self.values[k]

    def eval1(self, t):
        self.limit -= 1
        if self.limit < 0:
            from pv.core import Inconclusive
            raise Inconclusive('tree too large')
        c = type(t).__name__
        if c == 'NoneType':
            raise Hold()
        if c == 'DFTerminal':
            return self.term(t.name)
        if c == 'DFIntConst':
            return int_literal(t.value)
        if c == 'DFEvalValue':
            if t.isstring or t.isfloat or not isinstance(t.value, int):
                raise EvalError('value %r' % (t.value,))
            w = 32 if t.width is None else t.width
            return (t.value & mask(w), 0, w)
        if c in ('DFUndefined', 'DFHighImpedance'):
            w = 32 if t.width is None else t.width
            if w < 0:
                raise EvalError('undefined value of negative width %d' % w)
            return X(w)
        if c == 'DFBranch':
            tr = truth(self.eval(t.condnode))
            if tr is None:
                return self.either(t)
            v = self.eval(t.truenode if tr else t.falsenode)
            try:
                w = self.width(t)
            except Hold:
                w = v[2]
            return ext(v, max(w, v[2]))
        if c == 'DFOperator':
            return operate(t.operator, [self.eval(n) for n in t.nextnodes])
        if c == 'DFConcat':
            b = x = w = 0
            for n in t.nextnodes:
                vb, vx, vw = self.eval(n)
                b = (b << vw) | vb
                x = (x << vw) | vx
                w += vw
            return (b, x, w)
        if c == 'DFPartselect':
            single = t.msb == t.lsb
            lo = self.eval(t.lsb)
            hi = self.eval(t.msb)
            if lo[1] or hi[1]:
                return X(1 if single else self.width(t))
            lo, hi = self.number_or(t.lsb, lo), self.number_or(t.msb, hi)
            if type(t.var).__name__ == 'DFTerminal':
                m, l = self.range(t.var.name)
                if hi < lo:
                    raise EvalError('reversed part select [%d:%d] of %s' % (hi, lo, t.var.name))
                if lo < l or hi > m:
                    if single:
                        return X(1)
                    raise EvalError('part select [%d:%d] of %s[%d:%d]' % (hi, lo, t.var.name, m, l))
                return self.term(t.var.name, hi, lo)
            if type(t.var).__name__ == 'DFPointer':
                pv = t.var
                if type(pv.var).__name__ == 'DFTerminal' and self.terms[pv.var.name].dims is not None:
                    l = self.range(pv.var.name)[1]
                    return self.cut(self.eval(t.var), hi - l, lo - l)
            return self.cut(self.eval(t.var), hi, lo)
        if c == 'DFPointer':
            p = self.eval(t.ptr)
            if p[1]:
                return X(self.width(t))
            i = self.number_or(t.ptr, p)
            if type(t.var).__name__ == 'DFTerminal':
                name = t.var.name
                if self.terms[name].dims is not None:
                    return self.term(name, ptr=i)
                m, l = self.range(name)
                if not l <= i <= m:
                    return X(1)
                return self.term(name, i, i)
            v = self.eval(t.var)
            return self.cut(v, i, i) if 0 <= i < v[2] else X(1)
        raise EvalError('unknown node %s' % c)

    def number_or(self, tree, v):
        if type(tree).__name__ == 'DFEvalValue':
            return int(tree.value)
        b, x, w = v
        if w >= 32 and b >> (w - 1):
            b -= 1 << w
        return b


def size(t, limit=100000):
    """Number of nodes."""
    n = 0
    stack = [t]
    while stack and n < limit:
        x = stack.pop()
        if x is None:
            continue
        n += 1
        stack.extend(x.children())
    return n
