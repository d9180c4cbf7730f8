"""Grammar-directed generator of Verilog text together with the AST that the
text denotes, written from the language definition (IEEE 1364 subset that the
README claims), not from the parser's actions.

A text is a list of tokens; layout (white space, comments, directives) is
chosen afterwards by render(), which also turns token indices into line
numbers.  Expected nodes are JSON:

    {"c": class, "a": {attribute: value}, "l": first token, "e": last token}

"l"/"e" are token indices until resolve() replaces them by line numbers; None
means "not specified".
"""

KEYWORDS = set('''module endmodule begin end generate endgenerate genvar function endfunction
task endtask input inout output tri reg logic wire integer real signed parameter localparam supply0
supply1 assign always always_ff always_comb always_latch or posedge negedge initial if else for while
case casex casez unique endcase default wait forever disable fork join'''.split())

# words that are keywords for a Verilog tool even though Pyverilog's lexer
# would take them as identifiers
RESERVED = KEYWORDS | set('''and nand nor not xor xnor buf bufif0 bufif1 notif0 notif1 specify endspecify
primitive endprimitive table endtable time realtime event repeat deassign force release defparam edge
scalared vectored small medium large pullup pulldown cmos rcmos nmos pmos rnmos rpmos tran tranif0 tranif1
strong0 strong1 pull0 pull1 weak0 weak1 highz0 highz1 tri0 tri1 triand trior trireg wand wor ifnone
automatic cell config design endconfig incdir include instance liblist library noshowcancelled
pulsestyle_onevent pulsestyle_ondetect showcancelled specparam unsigned use macromodule'''.split())

WORDS = sorted(RESERVED)

BASE_NAMES = ['a', 'b', 'c', 'clk', 'rst_n', 'x1', 'Data', '_t', 'sig$1', 'n_0', 'endx', 'begin_', 'ifx',
              'module1', 'or2', 'signedness', 'A', 'e1', 'd3', 'h0', 'x', 'z', 'state', 'WIDTH', 'i', 'j', 'u0',
              'reg_', 'wire0', 'tri3', 'for_', 'casez_', 'always_f', 'e', 'b0', 'o7', 'posedge1']

BINOPS = {  # op: (class, precedence; higher binds tighter)
    '**': ('Power', 12),
    '*': ('Times', 11), '/': ('Divide', 11), '%': ('Mod', 11),
    '+': ('Plus', 10), '-': ('Minus', 10),
    '<<': ('Sll', 9), '>>': ('Srl', 9), '<<<': ('Sla', 9), '>>>': ('Sra', 9),
    '<': ('LessThan', 8), '<=': ('LessEq', 8), '>': ('GreaterThan', 8), '>=': ('GreaterEq', 8),
    '==': ('Eq', 7), '!=': ('NotEq', 7), '===': ('Eql', 7), '!==': ('NotEql', 7),
    '&': ('And', 6), '^': ('Xor', 5), '~^': ('Xnor', 5), '|': ('Or', 4),
    '&&': ('Land', 3), '||': ('Lor', 2),
}
UNOPS = {'-': 'Uminus', '!': 'Ulnot', '~': 'Unot', '&': 'Uand', '~&': 'Unand', '|': 'Uor',
         '~|': 'Unor', '^': 'Uxor', '~^': 'Uxnor'}
OPCLASS = dict((c, (o, p)) for o, (c, p) in BINOPS.items())
UNCLASS = dict((c, o) for o, c in UNOPS.items())


def N(cls, l=None, e=None, **a):
    n = {'c': cls, 'a': a, 'l': l}
    if e is not None:
        n['e'] = e
    return n


def F(n):
    """Where the text of n starts: parentheses around an expression are not part
    of the tree, so either their line or that of the expression will do."""
    l = n['l']
    if l is None:
        return None
    f = n.get('f', l)
    lo = f if isinstance(f, int) else f[0]
    hi = l if isinstance(l, int) else l[1]
    lo = min(lo, l if isinstance(l, int) else l[0])
    return hi if lo == hi else [lo, hi]


class Tok(object):
    __slots__ = ('s', 'k', 'opt')

    def __init__(self, s, k):
        self.opt = False
        self.s = s
        self.k = k       # w word, n number, s string, p punctuation, e escaped identifier


class Gen(object):
    """Generates one source text.  Options restrict the subset."""

    def __init__(self, g, fuel=60, escaped=True, opts=(), emax=9):
        self.g = g
        self.emax = emax
        self.t = []
        self.fuel = fuel
        self.escaped = escaped
        self.opts = set(opts)
        self.feat = set()
        self.in_gen = False

    # ---- tokens -------------------------------------------------------
    @property
    def pos(self):
        return len(self.t)

    def w(self, s):
        self.t.append(Tok(s, 'w'))
        return len(self.t) - 1

    def p(self, s):
        self.t.append(Tok(s, 'p'))
        return len(self.t) - 1

    def num(self, s):
        self.t.append(Tok(s, 'n'))
        return len(self.t) - 1

    def string(self, s):
        self.t.append(Tok('"' + s + '"', 's'))
        return len(self.t) - 1

    def ident(self, s):
        if s.startswith('\\'):
            self.t.append(Tok(s, 'e'))
        else:
            self.t.append(Tok(s, 'w'))
        return len(self.t) - 1

    def burn(self, n=1):
        self.fuel -= n
        return self.fuel > 0

    # ---- names and literals ----------------------------------------------
    def name(self):
        g = self.g
        k = g.int(0, 19)
        if k < 13:
            return BASE_NAMES[g.int(0, len(BASE_NAMES) - 1)]
        if k < 14:
            # almost a keyword
            w = g.choice(WORDS)
            w = g.choice([w.upper(), w.capitalize(), w + g.choice('sx01_$'), '_' + w, w[:-1], w[:-1] + w[-1].upper()])
            return w + '_' if w in RESERVED or not w else w
        if k < 19 or not self.escaped:
            first = 'abcdefgxyzABCXZ_'
            rest = 'abcdeghxz019_$'
            s = g.choice(first) + ''.join(g.choice(rest) for _ in range(g.int(0, 5)))
            return s + '_' if s in RESERVED else s
        self.feat.add('escaped')
        chars = 'ab1+-*/!@#$%^&()[]{};:,.<>?=|~"\'`'
        s = '\\' + g.choice('ab+-*!@$&({[;:.') + ''.join(g.choice(chars) for _ in range(g.int(0, 4)))
        # keep comment openers out: they are legal but every tool disagrees
        for bad in ('//', '/*', '`', '"'):
            s = s.replace(bad, 'q')
        return s

    def intlit(self):
        g = self.g
        k = g.int(0, 11)
        if k <= 3:
            return str(g.int(0, 9))
        if k == 4:
            return str(g.int(0, 2 ** 31 - 1))
        if k == 5:
            return '%d_%d' % (g.int(0, 99), g.int(0, 999))
        base = g.choice('bodhBODH')
        size = g.choice(['', '1', '3', '4', '8', '12', '16', '32', '64', '128'])
        sg = g.choice(['', '', '', 's', 'S'])
        digs = {'b': '01', 'o': '01234567', 'd': '0123456789', 'h': '0123456789abcdefABCDEF'}[base.lower()]
        if base.lower() == 'd':
            if g.bool(0.1):
                return "%s'%s%s%s" % (size, sg, base, g.choice('xXzZ?'))
        elif g.bool(0.3):
            digs = digs + 'xXzZ?'
            self.feat.add('xz')
        n = g.int(1, 6)
        s = g.choice(digs)
        for _ in range(n - 1):
            s += g.choice(digs + '_')
        self.feat.add('sized')
        return "%s'%s%s%s" % (size, sg, base, s)

    def floatlit(self):
        g = self.g
        a, b, e = str(g.int(0, 99)), str(g.int(0, 999)), g.choice(['e', 'E']) + g.choice(['', '+', '-']) + str(g.int(0, 20))
        self.feat.add('float')
        return g.choice([a + '.' + b, a + '.' + b + e, a + e])

    def strlit(self):
        g = self.g
        pieces = ['a', 'B', ' ', '0', '%d', '%b', '\\n', '\\t', '\\"', '\\\\', '\\101', ';', '//', '/*', '*/', '(', ')', '  ',
                  '`', "'", '=', 'begin', ',', '#', '?']
        self.feat.add('string')
        return ''.join(g.choice(pieces) for _ in range(g.int(0, 5)))

    # ---- expression trees (no tokens yet) ---------------------------------
    def etree(self, d, const=False):
        """An expected expression tree without positions."""
        g = self.g
        if d <= 0 or self.emax <= 0 or not self.burn() or g.bool(0.22):
            return self.eleaf(const)
        k = g.int(0, 19)
        if k <= 7:
            op = g.choice(list(BINOPS))
            return N(BINOPS[op][0], left=self.etree(d - 1, const), right=self.etree(d - 1, const))
        if k <= 10:
            op = g.choice(list(UNOPS))
            return N(UNOPS[op], right=self.etree(d - 1, const))
        if k == 11:
            # unary plus denotes its operand
            return {'c': '(+)', 'a': {'right': self.etree(d - 1, const)}, 'l': None}
        if k <= 13:
            return N('Cond', cond=self.etree(d - 1, const), true_value=self.etree(d - 1, const),
                     false_value=self.etree(d - 1, const))
        if k == 14:
            self.feat.add('concat')
            return N('Concat', list=g.list(1, 4, lambda: self.etree(d - 1, const)))
        if k == 15:
            self.feat.add('repeat')
            return N('Repeat', times=self.etree(d - 2, const),
                     value=N('Concat', list=g.list(1, 3, lambda: self.etree(d - 1, const))))
        if const:
            return self.eleaf(const)
        if k == 16:
            return self.select(d)
        if k == 17:
            self.feat.add('call')
            return N('FunctionCall', name=self.scoped(d), args=g.list(0, 3, lambda: self.etree(d - 1)))
        if k == 18:
            return self.syscall(d)
        return self.select(d)

    def syscall(self, d):
        g = self.g
        self.feat.add('syscall')
        nm = g.choice(['signed', 'unsigned', 'time', 'random', 'clog2', 'display', 'write', 'finish', 'stime'])
        args = g.list(1 if nm == 'signed' else 0, 3, lambda: self.etree(d - 1))
        return N('SystemCall', syscall=nm, args=args)

    def eleaf(self, const=False):
        g = self.g
        k = g.int(0, 9)
        if k <= 4 or (const and k <= 8):
            if k <= 2 or const and k <= 5:
                return N('IntConst', value=self.intlit())
            return N('Identifier', name=self.name(), scope=None)
        if k == 5 or k == 6:
            return self.scoped(0)
        if k == 7:
            return N('FloatConst', value=self.floatlit())
        if k == 8:
            return N('StringConst', value=self.strlit())
        return N('Identifier', name=self.name(), scope=None)

    def scoped(self, d):
        g = self.g
        if not g.bool(0.15):
            return N('Identifier', name=self.name(), scope=None)
        self.feat.add('scoped')
        labels = g.list(1, 3, lambda: N('IdentifierScopeLabel', name=self.name(),
                                        loop=self.etree(d - 1, True) if g.bool(0.4) else None))
        return N('Identifier', name=self.name(), scope=N('IdentifierScope', labellist=labels))

    def select(self, d, depth=0):
        """identifier/pointer [e] or [e:e] or [e+:e] or [e-:e]"""
        g = self.g
        base = self.scoped(d - 1)
        for _ in range(g.int(0, 2)):
            base = N('Pointer', var=base, ptr=self.etree(d - 1))
        k = g.int(0, 5)
        self.feat.add('select')
        if k <= 1:
            return N('Pointer', var=base, ptr=self.etree(d - 1))
        if k <= 3:
            return N('Partselect', var=base, msb=self.etree(d - 1, True), lsb=self.etree(d - 1, True))
        self.feat.add('indexed_select')
        return {'c': '+:' if k == 4 else '-:', 'l': None,
                'a': {'var': base, 'b': self.etree(d - 1), 'w': self.etree(d - 1, True)}}

    # ---- expression printing ------------------------------------------------
    PRIM = 100
    UN = 50

    def eprec(self, n):
        c = n['c']
        if c in OPCLASS:
            return OPCLASS[c][1]
        if c == 'Cond':
            return 1
        if c in UNCLASS or c == '(+)':
            return self.UN
        return self.PRIM

    def emit(self, n, minprec=0, plain=False):
        """Print expression n where precedence minprec is required; returns
        the expected node with positions."""
        g = self.g
        pr = self.eprec(n)
        need = pr < minprec
        # IEEE 1364 wants a primary below a unary operator; the parser is more
        # liberal, mostly stay with the standard.
        start = self.pos
        if need or (not plain and g.bool(0.12)):
            self.p('(')
            r = self.emit(n, 0)
            self.p(')')
        else:
            r = self._emit(n)
        # first token of the text, which may be a parenthesis
        return dict(r, f=start)

    def _emit(self, n):
        c, a = n['c'], n['a']
        if c in OPCLASS:
            op, pr = OPCLASS[c]
            l = self.emit(a['left'], pr)
            self.p(op)
            r = self.emit(a['right'], pr + 1)
            return N(c, F(l), left=l, right=r)
        if c in UNCLASS:
            i = self.p(UNCLASS[c])
            r = self.emit(a['right'], self.PRIM if self.g.bool(0.8) else self.UN)
            return N(c, i, right=r)
        if c == '(+)':
            i = self.p('+')
            r = self.emit(a['right'], self.PRIM)
            r = dict(r)
            return r
        if c == 'Cond':
            x = self.emit(a['cond'], 2)
            self.p('?')
            y = self.emit(a['true_value'], 0)
            self.p(':')
            z = self.emit(a['false_value'], 1)
            return N(c, F(x), cond=x, true_value=y, false_value=z)
        if c == 'Concat' or c == 'LConcat':
            i = self.p('{')
            out = []
            for k, x in enumerate(a['list']):
                if k:
                    self.p(',')
                out.append(self.emit(x, 0, plain=(c == 'LConcat')))
            self.p('}')
            return N(c, i, list=out)
        if c == 'Repeat':
            i = self.p('{')
            t = self.emit(a['times'], self.PRIM)
            v = self._emit(a['value'])
            self.p('}')
            return N(c, i, value=v, times=t)
        if c == 'Pointer':
            v = self._emit(a['var'])
            self.p('[')
            e = self.emit(a['ptr'], 0)
            self.p(']')
            return N(c, v['l'], var=v, ptr=e)
        if c == 'Partselect':
            v = self._emit(a['var'])
            self.p('[')
            m = self.emit(a['msb'], 0)
            self.p(':')
            l = self.emit(a['lsb'], 0)
            self.p(']')
            return N(c, v['l'], var=v, msb=m, lsb=l)
        if c in ('+:', '-:'):
            v = self._emit(a['var'])
            self.p('[')
            b = self.emit(a['b'], 0)
            self.p(c)
            w = self.emit(a['w'], 0)
            self.p(']')
            # a[b +: w] denotes a[b+w-1 : b], a[b -: w] denotes a[b : b-w+1];
            # any arithmetically equal spelling of the bounds is accepted.
            return N('Partselect', v['l'], var=v, msb={'sel': c, 'b': b, 'w': w, 'side': 'msb'},
                     lsb={'sel': c, 'b': b, 'w': w, 'side': 'lsb'})
        if c == 'Identifier':
            if a['scope'] is None:
                i = self.ident(a['name'])
                return N(c, i, name=a['name'], scope=None)
            labels = []
            first = None
            for lb in a['scope']['a']['labellist']:
                j = self.ident(lb['a']['name'])
                first = j if first is None else first
                loop = None
                if lb['a']['loop'] is not None:
                    self.p('[')
                    loop = self.emit(lb['a']['loop'], 0)
                    self.p(']')
                self.p('.')
                labels.append(N('IdentifierScopeLabel', first if len(labels) == 0 else None,
                                name=lb['a']['name'], loop=loop))
            self.ident(a['name'])
            return N(c, first, name=a['name'], scope=N('IdentifierScope', first, labellist=labels))
        if c == 'IntConst':
            i = self.num(a['value'])
            return N(c, i, value=a['value'])
        if c == 'FloatConst':
            i = self.num(a['value'])
            return N(c, i, value=a['value'])
        if c == 'StringConst':
            i = self.string(a['value'])
            return N(c, i, value=a['value'])
        if c == 'FunctionCall':
            nm = self._emit(a['name'])
            self.p('(')
            out = []
            for k, x in enumerate(a['args']):
                if k:
                    self.p(',')
                out.append(self.emit(x, 0))
            self.p(')')
            return N(c, nm['l'], name=nm, args=out)
        if c == 'SystemCall':
            i = self.t_dollar()
            self.w(a['syscall'])
            out = []
            if a['args'] or self.g.bool(0.3):
                self.p('(')
                for k, x in enumerate(a['args']):
                    if k:
                        self.p(',')
                    out.append(self.emit(x, 0))
                self.p(')')
            return N(c, i, syscall=a['syscall'], args=out)
        raise AssertionError(c)

    def t_dollar(self):
        self.t.append(Tok('$', 'd'))
        return len(self.t) - 1

    def expr(self, d=3, const=False):
        d = min(d, self.emax)
        return self.emit(self.etree(d, const), 0)

    def rvalue(self, d=3):
        e = self.expr(d)
        return N('Rvalue', F(e), var=e)

    # ---- declarations ------------------------------------------------------
    def width(self, d=2):
        i = self.p('[')
        m = self.expr(d, True)
        self.p(':')
        l = self.expr(d, True)
        self.p(']')
        return N('Width', i, msb=m, lsb=l)

    def opt_width(self, p=0.5):
        return self.width(self.g.int(0, 2)) if self.g.bool(p) else None

    def dims(self):
        first = None
        ls = []
        for _ in range(self.g.int(1, 2)):
            i = self.p('[')
            first = i if first is None else first
            m = self.expr(1, True)
            self.p(':')
            l = self.expr(1, True)
            self.p(']')
            ls.append(N('Length', i, msb=m, lsb=l))
        self.feat.add('array')
        return N('Dimensions', first, lengths=ls)

    def decl(self, kinds):
        """kinds: list of keyword lists, e.g. ['output', 'reg']"""
        g = self.g
        kw = g.choice(kinds)
        first = self.pos
        for k in kw:
            self.w(k)
        signed = g.bool(0.25)
        if signed:
            self.w('signed')
        w = self.opt_width()
        out = []
        l0 = self.pos
        n = g.weighted([(6, 1), (2, 2), (1, 3)])
        for i in range(n):
            if i:
                self.p(',')
            nm = self.name()
            nt = self.ident(nm)
            dm = None
            if g.bool(0.15) and not ('supply0' in kw or 'supply1' in kw):
                dm = self.dims()
            for k in kw:
                if k in ('supply0', 'supply1'):
                    self.feat.add('supply')
                    out.append(N('Supply', [first, nt], name=nm, width=w, signed=signed,
                                 value=N('IntConst', value=k[-1])))
                else:
                    out.append(N(k.capitalize(), [first, nt], name=nm, width=w, signed=signed, dimensions=dm, value=None))
        self.p(';')
        self.feat.add('decl:' + ' '.join(kw))
        return N('Decl', first, list=out)

    def declassign(self):
        g = self.g
        kw = g.choice([['wire'], ['reg'], ['wire'], ['output', 'wire'], ['output', 'reg']])
        first = self.pos
        for k in kw:
            self.w(k)
        signed = g.bool(0.25)
        if signed:
            self.w('signed')
        w = self.opt_width()
        ld = rd = None
        # `net #d x = #e y' only with a leading delay in the grammar
        if g.bool(0.2):
            ld = self.delay()
        nl = self.pos
        nm = self.name()
        self.ident(nm)
        self.p('=')
        if ld is not None and g.bool(0.3):
            rd = self.delay()
        r = self.rvalue()
        self.p(';')
        out = [N(k.capitalize(), [first, nl], name=nm, width=w, signed=signed, dimensions=None, value=None) for k in kw]
        idn = N('Identifier', None if ld else nl, name=nm, scope=None)
        out.append(N('Assign', [first, nl], left=N('Lvalue', [first, nl], var=idn), right=r, ldelay=ld, rdelay=rd))
        self.feat.add('declassign')
        return N('Decl', first, list=out)

    def delay(self):
        g = self.g
        i = self.p('#')
        k = g.int(0, 3)
        self.feat.add('delay')
        if k == 0:
            self.p('(')
            e = self.expr(2)
            self.p(')')
        elif k == 1:
            nm = self.scoped(0)
            e = self._emit(nm)
        elif k == 2:
            s = self.intlit()
            self.num(s)
            e = N('IntConst', value=s)
        else:
            s = self.floatlit()
            self.num(s)
            e = N('FloatConst', value=s)
        return N('DelayStatement', i, delay=e)

    def integerdecl(self):
        g = self.g
        first = self.w('integer')
        if g.bool(0.2):
            self.w('signed')
        l0 = self.pos
        out = []
        for i in range(g.int(1, 3)):
            if i:
                self.p(',')
            nm = self.name()
            nt = self.ident(nm)
            v = None
            if g.bool(0.25):
                self.p('=')
                v = self.rvalue(1)
                self.feat.add('intinit')
            out.append(N('Integer', [first, nt], name=nm, width=W(31, 0), signed=True, value=v, dimensions=None))
        self.p(';')
        self.feat.add('integer')
        return N('Decl', first, list=out)

    def realdecl(self):
        first = self.w('real')
        l0 = self.pos
        out = []
        for i in range(self.g.int(1, 3)):
            if i:
                self.p(',')
            nm = self.name()
            nt = self.ident(nm)
            out.append(N('Real', [first, nt], name=nm))
        self.p(';')
        self.feat.add('real')
        return N('Decl', first, list=out)

    def genvardecl(self):
        first = self.w('genvar')
        out = []
        for i in range(self.g.int(1, 2)):
            if i:
                self.p(',')
            nm = self.name()
            nt = self.ident(nm)
            out.append(N('Genvar', [first, nt], name=nm))
        self.p(';')
        self.feat.add('genvar')
        return N('Decl', first, list=out)

    def param_body(self, cls, first, head):
        """after the keyword: [signed] [width] | integer, then assignments."""
        g = self.g
        signed, w = False, None
        k = g.int(0, 5)
        if k == 1:
            self.w('signed')
            signed = True
        elif k == 2:
            w = self.width(1)
        elif k == 3:
            self.w('signed')
            signed = True
            w = self.width(1)
        elif k == 4:
            self.w('integer')
        l0 = self.pos
        out = []
        for i in range(g.weighted([(4, 1), (2, 2), (1, 3)])):
            if i:
                self.p(',')
            nm = self.name()
            nt = self.ident(nm)
            self.p('=')
            v = self.rvalue(2)
            out.append(N(cls, [first, nt], name=nm, value=v, width=w, signed=signed))
        return N('Decl', first, list=out)

    def parameterdecl(self, kw='parameter'):
        first = self.w(kw)
        d = self.param_body('Parameter' if kw == 'parameter' else 'Localparam', first, False)
        self.p(';')
        self.feat.add(kw)
        return d

    def pragma(self):
        g = self.g
        i = self.p('(')
        self.p('*')
        nm = self.name()
        self.ident(nm)
        v = None
        if g.bool(0.5):
            self.p('=')
            v = self.emit(self.eleaf(), 0, plain=True)
        self.p('*')
        self.p(')')
        self.feat.add('pragma')
        return N('Pragma', i, entry=N('PragmaEntry', i, name=nm, value=v))

    # ---- module ---------------------------------------------------------
    def module(self):
        g = self.g
        first = self.w('module')
        nm = self.name()
        self.ident(nm)
        params = N('Paramlist', params=[])
        if g.bool(0.35):
            pi = self.p('#')
            self.p('(')
            ds = []
            for i in range(g.int(1, 3)):
                if i:
                    self.p(',')
                kw = self.w('parameter')
                ds.append(self.param_body('Parameter', kw, True))
            self.p(')')
            params = N('Paramlist', pi, params=ds)
            self.feat.add('paramlist')
        ports = self.portlist()
        items = g.list(0, 7, self.item)
        e = self.w('endmodule')
        return N('ModuleDef', first, e, name=nm, paramlist=params, portlist=ports, items=items)

    def portlist(self):
        g = self.g
        k = g.int(0, 4)
        if k == 0:
            i = self.p(';')
            return N('Portlist', i, ports=[])
        i = self.p('(')
        if k == 1:
            self.p(')')
            self.p(';')
            return N('Portlist', i, ports=[])
        if k == 2:
            ports = []
            for j in range(g.int(1, 4)):
                if j:
                    self.p(',')
                nm = self.name()
                x = self.ident(nm)
                # every later port carries the line of the first one; a stable test
                # pins this (known finding of C04)
                ports.append(N('Port', None if ports and 'port_lines' not in self.opts else x, name=nm, width=None, dimensions=None, type=None))
            self.p(')')
            self.p(';')
            self.feat.add('nonansi_ports')
            return N('Portlist', i, ports=ports)
        ports = []
        prev = None
        for j in range(g.int(1, 5)):
            if j:
                self.p(',')
            if prev is not None and g.bool(0.35):
                # a bare name continues the previous declaration
                nm = self.name()
                x = self.ident(nm)
                kw, signed, w, dm = prev
                self.feat.add('port_continuation')
            else:
                kw = g.choice([['input'], ['output'], ['inout'], ['output', 'reg'], ['input', 'wire'],
                               ['output', 'wire'], ['inout', 'tri'], ['inout', 'wire']])
                for q in kw:
                    self.w(q)
                signed = g.bool(0.25)
                if signed:
                    self.w('signed')
                w = self.opt_width(0.5)
                nm = self.name()
                x = self.ident(nm)
                dm = None
                if w is not None and g.bool(0.1):
                    dm = self.dims()
            prev = (kw, signed, w, None)
            nodes = [N(q.capitalize(), x, name=nm, width=w, signed=signed, dimensions=dm, value=None) for q in kw]
            ports.append(N('Ioport', x, first=nodes[0], second=nodes[1] if len(nodes) > 1 else None))
        self.p(')')
        self.p(';')
        self.feat.add('ansi_ports')
        return N('Portlist', i, ports=ports)

    DECLS = [['wire'], ['reg'], ['input'], ['output'], ['inout'], ['tri'], ['output', 'reg'], ['input', 'wire'],
             ['output', 'wire'], ['inout', 'wire'], ['inout', 'tri'], ['supply0'], ['supply1']]

    def item(self, gen=False):
        g = self.g
        self.burn()
        k = g.weighted([(8, 'decl'), (2, 'declassign'), (2, 'integer'), (1, 'real'), (3, 'parameter'),
                        (2, 'localparam'), (1, 'genvar'), (6, 'assign'), (8, 'always'), (3, 'initial'),
                        (5, 'instance'), (3, 'function'), (2, 'task'), (1, 'pragma'), (4, 'generate')])
        if self.fuel <= 0 and k not in ('decl', 'assign'):
            k = 'assign'
        if self.in_gen and k == 'generate':
            return self.gen_construct() if gen else self.assign()
        return getattr(self, {'decl': 'i_decl', 'integer': 'integerdecl', 'real': 'realdecl',
                              'parameter': 'parameterdecl', 'localparam': 'i_localparam', 'genvar': 'genvardecl',
                              'generate': 'generate'}.get(k, k))()

    def i_decl(self):
        return self.decl(self.DECLS)

    def i_localparam(self):
        return self.parameterdecl('localparam')

    def lvalue_tree(self, d=2, concat=True):
        g = self.g
        k = g.int(0, 9)
        if k <= 4:
            return self.scoped(1)
        if k <= 7 or not concat:
            return self.select(d)
        self.feat.add('lconcat')
        return N('LConcat', list=g.list(1, 3, lambda: self.lvalue_tree(d - 1, d > 0)))

    def lvalue(self):
        e = self.emit(self.lvalue_tree(), 0, plain=True)
        return N('Lvalue', F(e), var=e)

    def assign(self):
        g = self.g
        first = self.w('assign')
        ld = rd = None
        if g.bool(0.15):
            ld = self.delay()
        l = self.lvalue()
        self.p('=')
        # the grammar has an intra-assignment delay here; only with a leading
        # one is it unambiguous Verilog-2001-ish text
        if ld is not None and g.bool(0.2):
            rd = self.delay()
        r = self.rvalue()
        e = self.p(';')
        self.feat.add('assign')
        return N('Assign', first, e, left=l, right=r, ldelay=ld, rdelay=rd)

    # ---- instances --------------------------------------------------------
    def instance(self):
        g = self.g
        prim = g.bool(0.08)
        first = self.pos
        mod = 'or' if prim else self.name()
        if prim:
            self.w('or')
        else:
            self.ident(mod)
        pl = []
        pk = g.int(0, 3)
        if g.bool(0.12):
            # unnamed instances take no parameter list
            self.feat.add('unnamed_instance')
            insts = []
            for i in range(g.int(1, 2)):
                if i:
                    self.p(',')
                self.p('(')
                ports = self.portargs()
                self.p(')')
                insts.append(N('Instance', first, module=mod, name='', portlist=ports, parameterlist=[], array=None))
            e = self.p(';')
            return N('InstanceList', first, e, module=mod, parameterlist=[], instances=insts)
        if pk >= 2:
            self.p('#')
            self.p('(')
            if pk == 2:
                for i in range(g.int(1, 3)):
                    if i:
                        self.p(',')
                    x = self.expr(2)
                    pl.append(N('ParamArg', F(x), paramname=None, argname=x))
            else:
                for i in range(g.int(0, 3)):
                    if i:
                        self.p(',')
                    j = self.p('.')
                    nm = self.name()
                    self.ident(nm)
                    self.p('(')
                    x = self.expr(2)
                    self.p(')')
                    pl.append(N('ParamArg', j, paramname=nm, argname=x))
            self.p(')')
            self.feat.add('param_override')
        insts = []
        for i in range(g.weighted([(5, 1), (2, 2), (1, 3)])):
            if i:
                self.p(',')
            nm = self.name()
            self.ident(nm)
            arr = self.width(1) if g.bool(0.15) else None
            if arr:
                self.feat.add('instance_array')
            self.p('(')
            ports = self.portargs()
            self.p(')')
            insts.append(N('Instance', first, module=mod, name=nm, portlist=ports, parameterlist=pl, array=arr))
        e = self.p(';')
        self.feat.add('instance')
        return N('InstanceList', first, e, module=mod, parameterlist=pl, instances=insts)

    def portargs(self):
        g = self.g
        out = []
        if g.bool(0.5):
            for i in range(g.int(0, 3)):
                if i:
                    self.p(',')
                x = self.expr(2)
                out.append(N('PortArg', F(x), portname=None, argname=x))
        else:
            for i in range(g.int(1, 4)):
                if i:
                    self.p(',')
                j = self.p('.')
                nm = self.name()
                self.ident(nm)
                self.p('(')
                x = self.expr(2) if g.bool(0.8) else None
                self.p(')')
                out.append(N('PortArg', j, portname=nm, argname=x))
        return out

    # ---- processes ----------------------------------------------------------
    def senslist(self, event=False):
        """Returns (node); emits @..."""
        g = self.g
        i = self.p('@')
        k = g.int(0, 6)
        if k == 0:
            self.p('*')
            return N('SensList', i, list=[N('Sens', None, sig=None, type='all')])
        if k == 1:
            self.p('(')
            self.p('*')
            self.p(')')
            return N('SensList', i, list=[N('Sens', None, sig=None, type='all')])
        if k == 2:
            x = self._emit(self.sens_sig(True))
            return N('SensList', i, list=[N('Sens', x['l'], sig=x, type='level')])
        self.p('(')
        out = []
        edge = k >= 4
        for j in range(g.int(1, 3)):
            if j:
                if g.bool(0.5):
                    self.p(',')
                else:
                    self.w('or')
            if edge:
                ty = g.choice(['posedge', 'negedge'])
                q = self.w(ty)
                x = self._emit(self.sens_sig(False))
                out.append(N('Sens', q, sig=x, type=ty))
            else:
                x = self._emit(self.sens_sig(True))
                out.append(N('Sens', x['l'], sig=x, type='level'))
        self.p(')')
        return N('SensList', i, list=out)

    def sens_sig(self, part):
        g = self.g
        k = g.int(0, 5)
        if k <= 3:
            return self.scoped(1)
        if k == 4 or not part:
            return N('Pointer', var=N('Identifier', name=self.name(), scope=None), ptr=self.etree(1))
        return N('Partselect', var=N('Identifier', name=self.name(), scope=None), msb=self.etree(1, True),
                 lsb=self.etree(1, True))

    def always(self):
        g = self.g
        kw = g.weighted([(9, 'always'), (1, 'always_ff'), (1, 'always_comb'), (1, 'always_latch')])
        first = self.w(kw)
        cls = {'always': 'Always', 'always_ff': 'AlwaysFF', 'always_comb': 'AlwaysComb',
               'always_latch': 'AlwaysLatch'}[kw]
        if kw in ('always_comb', 'always_latch') or (kw == 'always' and g.bool(0.08)):
            s = N('SensList', list=[])
            # an event control as body would read as the sensitivity list
            st = [lambda: self.block(3), self.blocking, lambda: self.if_(3, False)][self.g.int(0, 2)]()
        else:
            s = self.senslist()
            st = self.stmt(self.g.int(1, 6))
        self.feat.add(kw)
        return N(cls, first, self.pos - 1, sens_list=s, statement=st)

    def initial(self):
        first = self.w('initial')
        st = self.stmt(self.g.int(1, 6))
        self.feat.add('initial')
        return N('Initial', first, statement=st)

    def open_if(self, n):
        """Does the text of statement n end in an if without else?"""
        c, a = n['c'], n['a']
        if c == 'Block' and a['statements'] and a['statements'][-1]['c'] == 'IfStatement' and n['e'] == a['statements'][-1]['e']:
            return self.open_if(a['statements'][-1])    # delayed
        if c == 'IfStatement':
            return a['false_statement'] is None or self.open_if(a['false_statement'])
        if c in ('ForStatement', 'WhileStatement', 'ForeverStatement', 'WaitStatement'):
            return a['statement'] is not None and self.open_if(a['statement'])
        return False

    def stmt(self, d, closed=False, func=False):
        """closed: must not end in an open if."""
        g = self.g
        if not self.burn() or d <= 0:
            return self.blocking()
        ks = [(8, 'blocking'), (6, 'nonblocking'), (8, 'block'), (7, 'if_'), (5, 'case'), (3, 'for_'), (2, 'while_'),
              (2, 'namedblock'), (2, 'event'), (1, 'wait_'), (1, 'forever'), (1, 'fork'), (3, 'single')]
        k = g.weighted(ks)
        self.feat.add(k)
        f = getattr(self, k)
        if k in ('if_', 'for_', 'while_', 'wait_', 'forever'):
            return f(d, closed)
        if k in ('block', 'case', 'namedblock', 'fork'):
            return f(d)
        return f()

    def substitution(self, cls, op):
        g = self.g
        ld = self.delay() if g.bool(0.08) else None
        l = self.lvalue()
        self.p(op)
        rd = self.delay() if g.bool(0.08) else None
        r = self.rvalue()
        e = self.p(';')
        return N(cls, l['l'], e, left=l, right=r, ldelay=ld, rdelay=rd)

    def blocking(self):
        return self.substitution('BlockingSubstitution', '=')

    def nonblocking(self):
        return self.substitution('NonblockingSubstitution', '<=')

    def block(self, d):
        i = self.w('begin')
        ss = self.g.list(0, 4, lambda: self.stmt(d - 1))
        e = self.w('end')
        return N('Block', i, e, statements=ss, scope=None)

    def namedblock(self, d):
        g = self.g
        i = self.w('begin')
        self.p(':')
        nm = self.name()
        self.ident(nm)
        ss = []
        for _ in range(g.int(0, 2)):
            k = g.int(0, 4)
            ss.append([lambda: self.decl([['reg'], ['wire']]), self.integerdecl, self.realdecl,
                       self.parameterdecl, self.i_localparam][k]())
        ss += g.list(0, 3, lambda: self.stmt(d - 1))
        e = self.w('end')
        return N('Block', i, e, statements=ss, scope=nm)

    def fork(self, d):
        i = self.w('fork')
        ss = self.g.list(0, 3, lambda: self.stmt(d - 1))
        self.w('join')
        return N('ParallelBlock', i, statements=ss, scope=None)

    def if_(self, d, closed):
        g = self.g
        if g.bool(0.06):
            x = self.delay()
            s = self.if_nodelay(d, closed)
            return N('Block', x['l'], s['e'], statements=[N('SingleStatement', x['l'], statement=x), s], scope=None)
        return self.if_nodelay(d, closed)

    def if_nodelay(self, d, closed):
        g = self.g
        i = self.w('if')
        self.p('(')
        c = self.expr(2)
        self.p(')')
        if closed or g.bool(0.6):
            t = self.stmt(d - 1, True)
            self.w('else')
            f = self.stmt(d - 1, closed)
        else:
            t = self.stmt(d - 1, closed)
            f = None
        return N('IfStatement', i, self.pos - 1, cond=c, true_statement=t, false_statement=f)

    def case(self, d):
        g = self.g
        kw = g.weighted([(4, 'case'), (2, 'casex'), (2, 'casez'), (1, 'unique')])
        i = self.w(kw)
        if kw == 'unique':
            self.w('case')
        cls = {'case': 'CaseStatement', 'casex': 'CasexStatement', 'casez': 'CasezStatement',
               'unique': 'UniqueCaseStatement'}[kw]
        self.p('(')
        c = self.expr(2)
        self.p(')')
        cl = []
        n = g.int(1, 4)
        dflt = g.int(0, n) if g.bool(0.6) else None
        for k in range(n):
            if k == dflt:
                j = self.w('default')
                self.p(':')
                s = self.stmt(d - 1)
                cl.append(N('Case', j, cond=None, statement=s))
                continue
            conds = []
            for q in range(g.weighted([(4, 1), (2, 2), (1, 3)])):
                if q:
                    self.p(',')
                conds.append(self.expr(2))
            self.p(':')
            s = self.stmt(d - 1)
            cl.append(N('Case', F(conds[0]), cond=conds, statement=s))
        e = self.w('endcase')
        self.feat.add(kw)
        return N(cls, i, e, comp=c, caselist=cl)

    def for_header(self):
        g = self.g
        i = self.w('for')
        self.p('(')
        full = 'full_for' in self.opts
        if full or g.bool(0.9):
            pre = self.blocking()
        else:
            self.p(';')
            pre = None
        cond = None
        if full or g.bool(0.9):
            cond = self.expr(2)
        self.p(';')
        post = None
        if full or g.bool(0.9):
            l = self.lvalue()
            self.p('=')
            r = self.rvalue(2)
            post = N('BlockingSubstitution', l['l'], left=l, right=r, ldelay=None, rdelay=None)
        self.p(')')
        return i, pre, cond, post

    def for_(self, d, closed):
        i, pre, cond, post = self.for_header()
        s = self.stmt(d - 1, closed)
        return N('ForStatement', i, pre=pre, cond=cond, post=post, statement=s)

    def while_(self, d, closed):
        i = self.w('while')
        self.p('(')
        c = self.expr(2)
        self.p(')')
        s = self.stmt(d - 1, closed)
        return N('WhileStatement', i, cond=c, statement=s)

    def forever(self, d, closed):
        i = self.w('forever')
        s = self.stmt(d - 1, closed)
        return N('ForeverStatement', i, statement=s)

    def wait_(self, d, closed):
        i = self.w('wait')
        self.p('(')
        c = self.expr(2)
        self.p(')')
        if self.g.bool(0.4):
            self.t[self.p(';')].opt = True
            s = None
        else:
            s = self.stmt(d - 1, closed)
            if s['c'] == 'EventStatement' and not s['a']['senslist']['a']['list']:
                s = None
        return N('WaitStatement', i, cond=c, statement=s)

    def event(self):
        i = self.pos
        null = self.g.bool(0.3)
        s = N('SensList', None, list=[]) if null else self.senslist()
        z = self.p(';')
        self.t[z].opt = True
        if null:                       # a semicolon before it can go, too
            self.t[z - 1].opt = True
        return N('EventStatement', i, senslist=s)

    def single(self):
        g = self.g
        k = g.int(0, 3)
        if k == 0:
            i = self.p('#')
            e = self.expr(1)
            z = self.p(';')
            self.t[z].opt = True
            return N('SingleStatement', i, z, statement=N('DelayStatement', i, delay=e))
        if k == 1:
            i = self.w('disable')
            nm = self.name()
            self.ident(nm)
            z = self.p(';')
            return N('SingleStatement', i, z, statement=N('Disable', i, dest=nm))
        s = self._emit(self.syscall(2))
        z = self.p(';')
        return N('SingleStatement', s['l'], z, statement=s)

    # ---- functions, tasks, generate -----------------------------------------
    def sub_body(self, func):
        """calc statement of a function or task."""
        g = self.g
        k = g.int(0, 8)
        if k <= 3:
            return self.block(2) if g.bool(0.8) else self.namedblock(2)
        return [self.blocking, lambda: self.if_(2, False), lambda: self.for_(2, False),
                lambda: self.while_(2, False), lambda: self.case_nounique(2)][k - 4]()

    def case_nounique(self, d):
        while True:
            n0, f0 = len(self.t), set(self.feat)
            c = self.case(d)
            if c['c'] != 'UniqueCaseStatement':
                return c
            del self.t[n0 + 0:n0 + 1]      # drop the 'unique' token: plain case
            c = shift(c, n0, -1)
            c['c'] = 'CaseStatement'
            c['l'] = n0
            return c

    def function(self):
        g = self.g
        first = self.w('function')
        k = g.int(0, 3)
        if k <= 1:
            w = self.width(1)
        elif k == 2:
            self.w('integer')
            w = W(31, 0)
        else:
            w = W(0, 0)
        nm = self.name()
        self.ident(nm)
        self.p(';')
        ss = []
        for _ in range(g.int(1, 3)):
            ss.append(self.decl([['input'], ['input'], ['reg'], ['input', 'reg']][:3]) if g.bool(0.8)
                      else self.integerdecl())
        ss.append(self.sub_body(True))
        e = self.w('endfunction')
        self.feat.add('function')
        return N('Function', first, e, name=nm, retwidth=w, statement=ss)

    def task(self):
        g = self.g
        first = self.w('task')
        nm = self.name()
        self.ident(nm)
        self.p(';')
        ss = []
        for _ in range(g.int(0, 2)):
            ss.append(self.decl([['input'], ['reg']]) if g.bool(0.8) else self.integerdecl())
        ss.append(self.sub_body(False))
        self.w('endtask')
        self.feat.add('task')
        return N('Task', first, name=nm, statement=ss)

    def generate(self):
        i = self.w('generate')
        self.in_gen = True
        items = self.g.list(0, 4, lambda: self.gen_construct() if self.g.bool(0.5) else self.item(True))
        e = self.w('endgenerate')
        self.in_gen = False
        self.feat.add('generate')
        return N('GenerateStatement', i, e, items=items)

    def gen_construct(self, d=2, closed=False):
        g = self.g
        if g.bool(0.5):
            i, pre, cond, post = self.for_header()
            s = self.gen_content(d, closed)
            self.feat.add('generate_for')
            return N('ForStatement', i, pre=pre, cond=cond, post=post, statement=s)
        i = self.w('if')
        self.p('(')
        c = self.expr(2)
        self.p(')')
        self.feat.add('generate_if')
        if closed or g.bool(0.6):
            t = self.gen_content(d, True)
            self.w('else')
            f = self.gen_content(d, closed)
        else:
            t = self.gen_content(d, closed)
            f = None
        return N('IfStatement', i, cond=c, true_statement=t, false_statement=f)

    def gen_content(self, d, closed):
        g = self.g
        self.burn()
        k = g.int(0, 3)
        if k == 0 and d > 0 and self.fuel > 0:
            return self.gen_construct(d - 1, closed)
        if k == 1:
            n0 = self.pos
            it = self.item(False)
            # an item can end in an open if (always if(..) x=1;)
            if closed and ends_open_item(self, it):
                del self.t[n0:]
                return self.gen_block(d)
            return it
        return self.gen_block(d)

    def gen_block(self, d):
        g = self.g
        i = self.w('begin')
        nm = None
        if g.bool(0.6):
            self.p(':')
            nm = self.name()
            self.ident(nm)
        items = g.list(0, 3, lambda: (self.gen_construct(d - 1) if d > 0 and self.fuel > 0 and g.bool(0.3)
                                      else self.item(False) if g.bool(0.5) else self.assign()))
        e = self.w('end')
        return N('Block', i, e, statements=items, scope=nm)

    def procs(self):
        """A module whose items are processes, subprograms, instances and generate
        regions with deep statements and shallow expressions."""
        g = self.g
        first = self.w('module')
        nm = self.name()
        self.ident(nm)
        i = self.p(';')
        ports = N('Portlist', i, ports=[])
        items = []
        for _ in range(g.int(1, 3)):
            self.fuel = g.int(6, 40)
            k = g.int(0, 9)
            items.append([self.always, self.always, self.always, self.initial, self.initial, self.function, self.task,
                          self.generate, self.generate, self.instance][k]())
        e = self.w('endmodule')
        m = N('ModuleDef', first, e, name=nm, paramlist=N('Paramlist', params=[]), portlist=ports, items=items)
        return N('Source', first, name='', description=N('Description', first, definitions=[m]))

    # ---- source --------------------------------------------------------------
    def source(self, nmod=3):
        defs = []
        for _ in range(self.g.int(1, nmod)):
            if self.g.bool(0.1):
                defs.append(self.pragma())
            defs.append(self.module())
            self.fuel = max(self.fuel, 8)
        return N('Source', defs[0]['l'], name='', description=N('Description', defs[0]['l'], definitions=defs))


def ends_open_item(gen, it):
    if it['c'].startswith('Always') or it['c'] == 'Initial':
        return gen.open_if(it['a']['statement'])
    return False


def W(m, l):
    return N('Width', msb=N('IntConst', value=str(m)), lsb=N('IntConst', value=str(l)))


def shift(n, start, by):
    """Move token indices > start by `by`."""
    if isinstance(n, list):
        return [shift(x, start, by) for x in n]
    if isinstance(n, dict):
        out = {}
        for k, v in n.items():
            if k in ('l', 'e', 'f'):
                sh = lambda x: x + by if x > start else x
                out[k] = v if v is None else sh(v) if isinstance(v, int) else [sh(x) for x in v]
            else:
                out[k] = shift(v, start, by)
        return out
    return n


# ----------------------------------------------------------------------------
# layout
# ----------------------------------------------------------------------------
MULTI = sorted(['||', '&&', '~|', '~&', '~^', '^~', '<<<', '>>>', '<<', '>>', '===', '!==', '==', '!=', '<=', '>=', '**',
                '+:', '-:', '->', '//', '/*', '*/', '(*', '*)', '&&&', '=>', '*>', '##', '::', '.*', '++', '--'],
               key=len, reverse=True)


def must_separate(a, b):
    """Would tokens a and b lex differently if written next to each other?"""
    wordish = ('w', 'n', 'd')
    if a.k == 'e':
        return True
    if a.k in wordish and b.k in wordish:
        return True
    if a.k == 'd':
        return False
    if a.k in ('w', 'n') and b.k == 's':
        return False
    if a.k == 's':
        return False
    if b.k == 'e':
        return a.k != 'p'
    if a.k == 'n' and b.s in ('.', '?'):      # ? is also a digit
        return True
    if a.s == '.' and b.k == 'n':
        return True
    if a.k == 'p' and b.k == 'p':
        s = a.s + b.s
        for m in MULTI:
            if s.startswith(m):
                return m != a.s
        # a longer operator could also start inside a
        return False
    return False


COMMENTS = ['/**/', '/* c */', '/*a*b*/', '/* // */', '/*\n*/', '/* x\n\ny */', '/***/', '/* module end */',
            '/* " */', '/* `define */', "/* ' */", '/*/ */']
LINECOMMENTS = ['//', '// c', '// /* ', '// */', '// "', '//`x', '// end module', "// '", '///', '// \\']
DIRECTIVES = ['`timescale 1ns/1ps', '`default_nettype wire', '`celldefine', '`resetall', '`line 3 "x.v" 1',
              '`default_nettype  none', '`endcelldefine', '`pragma protect']


def layout(g, toks, style=None, directives=False):
    """Choose separators.  Returns (list of separators before each token plus a
    trailing one)."""
    if style is None:
        style = g.weighted([(2, 'space'), (2, 'mixed'), (1, 'wild'), (1, 'tight'), (1, 'lines')])
    seps = []
    for i in range(len(toks) + 1):
        last = i == len(toks)
        need = 0 < i < len(toks) and must_separate(toks[i - 1], toks[i])
        # `#' and its literal stay on one line, `$' and its name together
        glue = 0 < i < len(toks) and (toks[i - 1].k == 'd' or toks[i - 1].s == '#' and toks[i].k == 'n')
        if glue:
            seps.append('')
            continue
        if style == 'tight':
            s = ' ' if need else ''
        elif style == 'space':
            s = ' '
        elif style == 'lines':
            s = '\n'
        elif style == 'mixed':
            s = g.weighted([(12, ' '), (3, '\n'), (2, ''), (1, '  '), (1, '\t'), (1, '\n\n'), (1, '\n  ')])
            if last and s == '':
                s = '\n'
        else:
            s = ''
            for _ in range(g.weighted([(6, 1), (2, 2), (1, 3), (2, 0)])):
                k = g.int(0, 9)
                if k <= 4:
                    s += g.choice([' ', '\n', '\t', '  \n', '\n\n\n'])
                elif k <= 6:
                    s += g.choice(COMMENTS)
                elif k <= 8:
                    s += g.choice(LINECOMMENTS) + '\n'
                elif directives:
                    s += '\n' + g.choice(DIRECTIVES) + '\n'
                else:
                    s += ' '
        if need and s == '':
            s = ' '
        if 0 < i and s[:1] in ('/', '`') and toks[i - 1].k == 'e':
            s = ' ' + s
        if 0 < i and s.startswith('/') and toks[i - 1].s in ('/', '*'):
            s = ' ' + s
        if i < len(toks) and s.endswith('/') and toks[i].s[0] in '/*':
            s = s + ' '
        seps.append(s)
    return seps


def join(toks, seps):
    """Text and the line of every token."""
    out = []
    lines = []
    line = 1
    for t, s in zip(toks, seps):
        line += s.count('\n')
        out.append(s)
        out.append(t.s)
        lines.append(line)
        line += t.s.count('\n')
    out.append(seps[-1])
    return ''.join(out), lines


def resolve(n, lines):
    if isinstance(n, list):
        return [resolve(x, lines) for x in n]
    if isinstance(n, dict):
        out = {}
        for k, v in n.items():
            if k in ('l', 'e'):
                out[k] = None if v is None else lines[v] if isinstance(v, int) else [lines[x] for x in v]
            elif k != 'f':
                out[k] = resolve(v, lines)
        return out
    return n


# ----------------------------------------------------------------------------
# comparison of a real AST with an expected one
# ----------------------------------------------------------------------------
class Diff(Exception):
    pass


def compare(node, exp, path='', lines=False):
    """Raise Diff unless the Pyverilog object denotes exp."""
    if exp is None or isinstance(exp, (str, bool, int)):
        if isinstance(exp, bool):
            if bool(node) != exp:
                raise Diff('%s: expected %r, got %r' % (path, exp, node))
            return
        if node != exp or type(node) is not type(exp):
            raise Diff('%s: expected %r, got %r' % (path, exp, describe(node)))
        return
    if isinstance(exp, list):
        if not isinstance(node, (list, tuple)):
            raise Diff('%s: expected a sequence, got %r' % (path, describe(node)))
        if len(node) != len(exp):
            raise Diff('%s: expected %d elements %s, got %d %s' % (path, len(exp), [brief(x) for x in exp], len(node), [
                describe(x) for x in node]))
        for i, (n, e) in enumerate(zip(node, exp)):
            compare(n, e, '%s[%d]' % (path, i), lines)
        return
    if 'sel' in exp:
        compare_sel(node, exp, path, lines)
        return
    if type(node).__name__ != exp['c']:
        raise Diff('%s: expected %s, got %s' % (path, brief(exp), describe(node)))
    path = path + '/' + exp['c']
    for a, v in exp['a'].items():
        if not hasattr(node, a):
            raise Diff('%s: no attribute %s' % (path, a))
        compare(getattr(node, a), v, path + '.' + a, lines)
    if lines:
        l = exp.get('l')
        if l is not None and not (node.lineno == l if isinstance(l, int) else l[0] <= node.lineno <= l[1]):
            raise Diff('%s: starts on line %s, reported %r' % (path, l, node.lineno))
        if exp.get('e') is not None and getattr(node, 'end_lineno', None) != exp['e']:
            raise Diff('%s: ends on line %d, reported %r' % (path, exp['e'], getattr(node, 'end_lineno', None)))


def strip_lines(e):
    """Expected tree without positions (for equality of expected trees)."""
    if isinstance(e, list):
        return [strip_lines(x) for x in e]
    if isinstance(e, dict):
        return dict((k, strip_lines(v)) for k, v in e.items() if k not in ('l', 'e', 'f'))
    return e


def compare_sel(node, exp, path, lines):
    """msb/lsb of an indexed part select: any sum equal to the bound, compared
    in linear normal form over the non-additive sub-expressions."""
    atoms = []          # (stripped, expected)

    def exp_atom(e):
        s = strip_lines(e)
        for i, (t, _) in enumerate(atoms):
            if t == s:
                return i
        atoms.append((s, e))
        return len(atoms) - 1

    def add(d, k, v):
        d[k] = d.get(k, 0) + v

    def flat_exp(e, c, d):
        cls = e.get('c')
        if cls in ('Plus', 'Minus'):
            flat_exp(e['a']['left'], c, d)
            flat_exp(e['a']['right'], c if cls == 'Plus' else -c, d)
        elif cls == 'Uminus':
            flat_exp(e['a']['right'], -c, d)
        elif cls == 'IntConst' and e['a']['value'].isdigit():
            add(d, 'one', c * int(e['a']['value']))
        else:
            add(d, exp_atom(e), c)

    def flat_act(n, c, d):
        cls = type(n).__name__
        if cls in ('Plus', 'Minus'):
            flat_act(n.left, c, d)
            flat_act(n.right, c if cls == 'Plus' else -c, d)
        elif cls == 'Uminus':
            flat_act(n.right, -c, d)
        elif cls == 'IntConst' and n.value.isdigit():
            add(d, 'one', c * int(n.value))
        else:
            for i, (_, e) in enumerate(atoms):
                try:
                    compare(n, e, path)
                except Diff:
                    continue
                add(d, i, c)
                return
            raise Diff('%s: not part of the select: %s' % (path, describe(n)))

    want, got = {}, {}
    op, side = exp['sel'], exp['side']
    flat_exp(exp['b'], 1, want)
    if (op, side) == ('+:', 'msb'):
        flat_exp(exp['w'], 1, want)
        add(want, 'one', -1)
    elif (op, side) == ('-:', 'lsb'):
        flat_exp(exp['w'], -1, want)
        add(want, 'one', 1)
    else:
        flat_exp(exp['w'], 0, want)
    flat_act(node, 1, got)
    want = dict((k, v) for k, v in want.items() if v)
    got = dict((k, v) for k, v in got.items() if v)
    if want != got:
        raise Diff('%s: %s bound of an indexed select %s is wrong' % (path, side, op))


def describe(n):
    if n is None or isinstance(n, (str, int, bool)):
        return repr(n)
    if isinstance(n, (list, tuple)):
        return '[%s]' % ', '.join(describe(x) for x in n[:6])
    c = type(n).__name__
    for a in ('name', 'value', 'syscall', 'dest', 'paramname', 'portname'):
        v = getattr(n, a, None)
        if isinstance(v, str):
            return '%s(%s)' % (c, v)
    return c


def brief(e):
    if isinstance(e, dict) and 'c' in e:
        for a in ('name', 'value', 'syscall', 'dest'):
            v = e['a'].get(a)
            if isinstance(v, str):
                return '%s(%s)' % (e['c'], v)
        return e['c']
    return repr(e)


def has_open_null(n):
    return False
