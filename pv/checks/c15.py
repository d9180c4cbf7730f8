"""C15: every declared signal and every instance is reported once, with kind and range."""
import re

from pv import core, dfcheck

PID = 'C15'
RULE = ('a case is one hierarchy of 1-4 generated modules with ANSI and non-ANSI ports, every kind of declaration, parameters, generate '
        'constructs, instance arrays, named blocks, functions and implicit nets; terms, signals, constants and instances are compared with '
        'the elaboration tracked while generating.  Non-trivial: at least 12 declared names.')
ASSUMPTIONS = ['scopes of always blocks and generate constructs are named by the analyser (md_*, ge_*) and are not part of a name',
               'parameters without range are reported as [31:0]', 'real, time and event declarations are not signals of the dataflow']


class M(object):
    def __init__(self, name):
        self.name = name
        self.params = []          # (name, default)
        self.ports = []           # (name, dir, width text or None)
        self.text = ''
        self.build = None         # function(env) -> list of ('term', name, kinds, msb, lsb, dims) / ('inst', name, module, env) / ('any', name)


class B(object):
    """builds one module: text and a list of items to elaborate"""

    def __init__(self, g, name, subs, feat):
        self.g, self.name, self.subs, self.feat = g, name, subs, feat
        self.n = 0
        self.items = []
        self.params = []
        self.out = []
        self.vecs = []             # scalar or vector signals usable in expressions
        self.funcs = []

    def fresh(self, p='n'):
        self.n += 1
        return '%s%d' % (p, self.n)

    # constant expressions over parameters: text and function of env
    def const(self, lo, hi, env=()):
        g = self.g
        v = g.int(lo, hi)
        names = [p for p, _ in self.params] + list(env)
        if names and g.bool(0.5):
            p = g.choice(names)
            k = g.int(0, 2)
            if k == 0:
                return p, lambda e, p=p: e[p]
            if k == 1:
                return '%s+%d' % (p, v), lambda e, p=p, v=v: e[p] + v
            return '%s*2' % p, lambda e, p=p: e[p] * 2
        return str(v), lambda e, v=v: v

    def rng(self, env=()):
        """declared range: text, (msb, lsb) functions"""
        g = self.g
        if g.bool(0.35):
            return '', None
        m, l = self.const(0, 12, env), ('0', lambda e: 0)
        if g.bool(0.25):
            l = self.const(0, 5, env)
            self.feat.add('offset or ascending range')
        return '[%s:%s]' % (m[0], l[0]), (m[1], l[1])

    def item(self, name, kinds, r, dims=(), default=(0, 0)):
        r = r or (lambda e, d=default: d[0], lambda e, d=default: d[1])
        return ('term', name, sorted(kinds), r, dims)

    def decl(self, env=(), block=False):
        g = self.g
        k = g.choice(['wire', 'wire', 'reg', 'reg', 'reg', 'integer', 'tri', 'supply', 'array', 'init'] if not block
                     else ['reg', 'reg', 'integer', 'array'])
        self.feat.add(k)
        names = [self.fresh() for _ in range(g.choice([1, 1, 1, 2, 3]))]
        if k == 'integer':
            return 'integer %s;' % ', '.join(names), [self.item(n, ['Integer'], None, (), (31, 0)) for n in names]
        if k == 'supply':
            return 'supply%d %s;' % (g.int(0, 1), ', '.join(names)), [self.item(n, ['Supply'], None) for n in names]
        t, r = self.rng(env)
        sg = g.choice(['', '', '', 'signed '])
        if k == 'array':
            kd = g.choice(['reg', 'reg', 'wire']) if not block else 'reg'
            ds = []
            for _ in range(g.choice([1, 1, 2])):
                a, b = self.const(0, 5, env), self.const(0, 9, env)
                ds.append((a, b))
            n = names[0]
            return ('%s %s%s %s %s;' % (kd, sg, t, n, ' '.join('[%s:%s]' % (a[0], b[0]) for a, b in ds)),
                    [self.item(n, [kd.capitalize()], r, tuple((a[1], b[1]) for a, b in ds))])
        if k == 'init' and self.vecs:
            return 'wire %s%s %s = %s;' % (sg, t, names[0], g.choice(self.vecs)), [self.item(names[0], ['Wire'], r)]
        if k in ('tri', 'init'):
            sg = ''
            k = 'tri' if k == 'tri' else 'wire'
        if not block:
            self.vecs.append(names[0])
        return '%s %s%s %s;' % (k, sg, t, ', '.join(names)), [self.item(n, [k.capitalize()], r) for n in names]

    def instance(self, env=()):
        g = self.g
        m = g.choice(self.subs)
        n = self.fresh('u')
        ov = []
        args = []
        if m.params and g.bool(0.6):
            named = g.bool()
            k = g.int(1, len(m.params))
            ps = m.params[:k] if not named else g.perm(m.params)[:k]
            for p, _ in ps:
                c = self.const(1, 4, env)
                ov.append((p, c[1]))
                args.append('.%s(%s)' % (p, c[0]) if named else c[0])
            self.feat.add('override')
        conns = []
        items = []
        named = g.bool()
        ports = m.ports if not named else [p for p in g.perm(m.ports) if g.bool(0.8)]
        for p, d in ports:
            if d == 'output' and not env and g.bool(0.3):
                a = self.fresh('imp')
                items.append(self.item(a, ['Wire'], None))
                self.feat.add('implicit net')
            elif not self.vecs:
                if not named:
                    return '', []
                continue
            else:
                a = g.choice(self.vecs)
            conns.append('.%s(%s)' % (p, a) if named else a)
        arr = ''
        idx = None
        if not env and g.bool(0.15) and not any('imp' in c for c in conns):
            a, b = g.int(0, 2), g.int(0, 2)
            arr, idx = '[%d:%d]' % (a, b), list(range(min(a, b), max(a, b) + 1))
            self.feat.add('instance array')
        names = [n] if idx is None else ['%s_%d' % (n, i) for i in idx]
        return ('%s %s%s %s(%s);' % (m.name, '#(%s) ' % ', '.join(args) if args else '', n, arr, ', '.join(conns)),
                items + [('inst', x, m, ov) for x in names])

    def body(self, depth, env=()):
        """statements of a module or generate block: texts, items"""
        g = self.g
        out, items = [], []
        vecs = list(self.vecs)
        for _ in range(g.int(1, 5 if depth == 0 else 3)):
            k = g.choice(['decl'] * 6 + ['localparam', 'inst', 'inst', 'for', 'if', 'always', 'assign', 'func', 'gate', 'list'])
            if k == 'decl':
                t, i = self.decl(env)
            elif k == 'localparam':
                n = self.fresh('L')
                c = self.const(1, 4, env)
                t, i = 'localparam %s = %s;' % (n, c[0]), [('const', n, 'Localparam', c[1])]
            elif k == 'inst' and self.subs:
                t, i = self.instance(env)
            elif k == 'for' and depth < 2:
                t, i = self.loop(depth, env)
            elif k == 'if' and depth < 2:
                c = self.const(0, 3, env)
                v = g.int(0, 3)
                a, b = self.fresh('b'), self.fresh('b')
                ta, ia = self.body(depth + 1, env)
                tb, ib = self.body(depth + 1, env) if g.bool(0.6) else ('', None)
                t = 'if(%s > %d) begin: %s\n%s\nend' % (c[0], v, a, ta)
                if ib is not None:
                    t += ' else begin: %s\n%s\nend' % (b, tb)
                t = 'generate %s\nendgenerate' % t if depth == 0 else t
                i = [('if', c[1], v, a, ia, b, ib or [])]
                self.feat.add('generate if')
            elif k == 'always' and self.vecs:
                b = self.fresh('blk')
                ds = [self.decl(env, True) for _ in range(g.int(1, 2))]
                t = 'always @* begin: %s\n%s\nend' % (b, '\n'.join(d[0] for d in ds))
                if g.bool(0.5):
                    # nested named block
                    b2 = self.fresh('blk')
                    d2 = self.decl(env, True)
                    t = t[:-3] + 'begin: %s\n%s\nend\nend' % (b2, d2[0])
                    i = [('scope', b, [x for d in ds for x in d[1]] + [('scope', b2, d2[1])])]
                else:
                    i = [('scope', b, [x for d in ds for x in d[1]])]
                self.feat.add('named block')
            elif k == 'assign' and self.vecs and not env:
                n = self.fresh('imp')
                t, i = 'assign %s = %s;' % (n, g.choice(self.vecs)), [self.item(n, ['Wire'], None)]
                self.feat.add('implicit net')
            elif k == 'func' and depth == 0:
                n = self.fresh('f')
                a, v = self.fresh('a'), self.fresh('v') if not self.vecs or g.bool(0.6) else g.choice(self.vecs)
                t = ('function [3:0] %s;\ninput [3:0] %s;\nreg [2:0] %s;\nbegin\n%s = %s;\n%s = %s;\nend\nendfunction'
                     % (n, a, v, v, a, n, v))
                i = []
                if self.vecs and g.bool(0.6):
                    w = self.fresh()
                    t += '\nwire [3:0] %s;\nassign %s = %s(%s);' % (w, w, n, g.choice(self.vecs))
                    i = [self.item(w, ['Wire'], (lambda e: 3, lambda e: 0))]
                self.feat.add('function')
            elif k == 'gate' and self.vecs and not env:
                n = self.fresh()
                t = 'wire %s;\n%s %s(%s, %s, %s);' % (n, g.choice(['and', 'or', 'xor', 'nand']), self.fresh('gt'), n,
                                                     g.choice(self.vecs), g.choice(self.vecs))
                i = [self.item(n, ['Wire'], None)]
                self.feat.add('gate')
            elif k == 'list' and self.subs and not env:
                m = g.choice(self.subs)
                us = [self.fresh('u') for _ in range(2)]
                t, i = '%s %s;' % (m.name, ', '.join('%s()' % u for u in us)), [('inst', u, m, []) for u in us]
            else:
                continue
            out.append(t)
            items += i
        self.vecs = vecs if depth else self.vecs
        return '\n'.join(out), items

    def loop(self, depth, env):
        g = self.g
        v, b = self.fresh('g'), self.fresh('b')
        lo = g.int(0, 2)
        n = g.int(1, 3)
        step = g.int(1, 2)
        inner, items = self.body(depth + 1, env + (v,))
        t = 'for(%s=%d; %s<%d; %s=%s+%d) begin: %s\n%s\nend' % (v, lo, v, lo + n, v, v, step, b, inner)
        if depth == 0:
            t = 'genvar %s;\ngenerate %s\nendgenerate' % (v, t)
        else:
            t = 'genvar %s;\n%s' % (v, t)
        self.feat.add('generate for')
        return t, [('genvar', v), ('for', v, list(range(lo, lo + n, step)), b, items)]

    def module(self, top=False):
        g = self.g
        m = M(self.name)
        head = []
        hp = g.bool(0.5)
        for _ in range(g.int(0, 2)):
            n = self.fresh('P')
            v = g.int(1, 4)
            head.append((n, v))
        items = [('param', n, v) for n, v in head]
        self.params = head
        ports, portdecl, names = [], [], []
        ansi = g.bool(0.5)
        self.feat.add('ansi' if ansi else 'non-ansi')
        for _ in range(g.int(1, 4)):
            d = g.choice(['input', 'input', 'output', 'output', 'inout'])
            n = self.fresh('p')
            t, r = self.rng()
            sg = g.choice(['', '', 'signed '])
            kinds = [d.capitalize()]
            if ansi:
                k = g.choice(['', '', 'reg ', 'wire ']) if d == 'output' else g.choice(['', '', 'wire ']) if d == 'input' else ''
                if k:
                    kinds.append(k.strip().capitalize())
                names.append('%s %s%s%s %s' % (d, k, sg, t, n))
            else:
                names.append(n)
                portdecl.append('%s %s%s %s;' % (d, sg, t, n))
                k = g.choice(['', '', 'reg', 'wire']) if d == 'output' else g.choice(['', '', 'wire']) if d == 'input' else ''
                if k:
                    portdecl.append('%s %s%s %s;' % (k, sg, t, n))
                    kinds.append(k.capitalize())
            items.append(self.item(n, kinds, r))
            ports.append((n, d))
            self.vecs.append(n)
        if not ansi and g.bool(0.3):
            portdecl = portdecl if any(x.split()[0] in ('reg', 'wire') for x in portdecl) else g.perm(portdecl)
        body, its = self.body(0)
        pt = ', '.join('parameter %s = %d' % x for x in head)
        m.text = 'module %s %s(%s);\n%s%s\n%s\nendmodule\n' % (
            self.name, '#(%s) ' % pt if hp and pt else '', ', '.join(names),
            '' if hp else ''.join('parameter %s = %d;\n' % x for x in head), '\n'.join(portdecl), body)
        m.params, m.ports, m.items = head, ports, items + its
        return m


def elaborate(items, env, scope, terms, insts):
    """fills terms {name: [kinds, msb, lsb, dims]} and insts [[name, module]]"""
    for it in items:
        k = it[0]
        if k == 'param':
            env.setdefault(it[1], it[2])
            terms[scope + it[1]] = [['Parameter'], 31, 0, []]
        elif k == 'const':
            env[it[1]] = it[3](env)
            terms[scope + it[1]] = [[it[2]], 31, 0, []]
        elif k == 'term':
            terms[scope + it[1]] = [it[2], it[3][0](env), it[3][1](env), [[a(env), b(env)] for a, b in it[4]]]
        elif k == 'genvar':
            terms[scope + it[1]] = [['Genvar'], None, None, []]
        elif k == 'for':
            for v in it[2]:
                elaborate(it[4], dict(env, **{it[1]: v}), '%s%s[%d].' % (scope, it[3], v), terms, insts)
        elif k == 'if':
            b, i = (it[3], it[4]) if it[1](env) > it[2] else (it[5], it[6])
            elaborate(i, dict(env), '%s%s.' % (scope, b), terms, insts)
        elif k == 'scope':
            elaborate(it[2], dict(env), '%s%s.' % (scope, it[1]), terms, insts)
        elif k == 'inst':
            e = dict((p, f(env)) for p, f in it[3])
            insts.append([scope + it[1], it[2].name])
            elaborate(it[2].items, e, scope + it[1] + '.', terms, insts)


def gen(g):
    feat = set()
    mods = []
    for i in range(g.int(1, 4)):
        mods.append(B(g, 'm%d' % i, list(mods), feat).module())
    top = mods[-1]
    terms, insts = {}, [[top.name, top.name]]
    elaborate(top.items, {}, top.name + '.', terms, insts)
    order = g.perm(mods) if g.bool(0.5) else mods
    return dict(text='\n'.join(m.text for m in order), top=top.name, terms=terms, insts=insts, feat=sorted(feat), nobind=g.bool(0.15))


def plain(k):
    s = dfcheck.canonical(str(k))
    return re.sub(r'(md|ge)_(always|if)\d+(_ELSE)?\.', '', s)


def oracle(case):
    from pyverilog.dataflow.optimizer import VerilogDataflowOptimizer
    if len(case['terms']) > 400:
        raise core.Inconclusive('large')
    a = dfcheck.analyze(case['text'], case['top'])
    want = case['terms']
    got = sorted([plain(n), m] for n, m in a.getInstances())
    if got != sorted(case['insts']):
        raise core.Violation('instances: missing %s, unexpected %s' % ([x for x in case['insts'] if x not in got][:4],
                                                                       [x for x in got if x not in case['insts']][:4]) +
                             (' or repeated' if len(got) != len(case['insts']) else ''))
    opt = VerilogDataflowOptimizer(a.getTerms(), a.getBinddict())
    opt.resolveConstant()
    rt = opt.getResolvedTerms()
    if set(rt) != set(a.getTerms()):
        raise core.Violation('resolved terms are not the terms')
    seen = {}
    for k, t in rt.items():
        if a.getTerms()[k].termtype & set(['Rename', 'Function']):
            continue
        n = plain(k)
        if n in seen:
            raise core.Violation('%s is reported twice' % n)
        seen[n] = t
    for n in want:
        if n not in seen:
            raise core.Violation('no term for %s' % n)
    for n, t in seen.items():
        if n not in want:
            raise core.Violation('term %s (%s) is not declared' % (n, sorted(t.termtype)))
        kinds, msb, lsb, dims = want[n]
        if sorted(t.termtype) != sorted(kinds):
            raise core.Violation('%s has kinds %s instead of %s' % (n, sorted(t.termtype), sorted(kinds)))
        v = [getattr(x, 'value', x and x.tostr()) for x in (t.msb, t.lsb)]
        if msb is not None and v != [msb, lsb]:
            raise core.Violation('%s has range %s instead of %s' % (n, v, [msb, lsb]))
        d = [[getattr(l, 'value', l.tostr()), getattr(r, 'value', r.tostr())] for l, r in t.dims or ()]
        if d != dims:
            raise core.Violation('%s has array range %s instead of %s' % (n, d, dims))
        if str(t.name) != str([k for k in rt if rt[k] is t][0]):
            raise core.Violation('%s is named %s' % (n, t.name))
    names = sorted(n for n in want if not set(want[n][0]) & set(['Parameter', 'Localparam', 'Genvar']))
    implicit = [n for n in names if '.imp' in n]
    consts = sorted(n for n in want if n not in names)
    if case['nobind']:
        a = dfcheck.analyze(case['text'], case['top'], nobind=True)
        got = sorted([plain(n), m] for n, m in a.getInstances())
        if got != sorted(case['insts']):
            raise core.Violation('instances without binding: %s instead of %s' % (got[:10], case['insts'][:10]))
    got = sorted(plain(k) for k in a.getSignals())
    if [x for x in got if x not in implicit] != [x for x in names if x not in implicit]:
        raise core.Violation('signals: missing %s, unexpected %s' % ([x for x in names if x not in got + implicit][:5],
                                                                     [x for x in got if x not in names][:5]))
    got = sorted(plain(k) for k in a.getConsts())
    if got != consts:
        raise core.Violation('constants: missing %s, unexpected %s' % ([x for x in consts if x not in got][:5],
                                                                       [x for x in got if x not in consts][:5]))


SUBS = [core.Sub('hierarchy', gen, oracle, quick=2000, thorough=30000, nontrivial=lambda c: len(c['terms']) >= 12, labels=lambda c: c['feat'],
                 show=lambda c: c['text'], cpu=6)]
