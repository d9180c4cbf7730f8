"""C08: preprocessing expands exactly the given sources, macros and include paths."""
import os
import shutil
import subprocess

from pv import asttree, core, syntax
from pv.core import Sub, Violation

PID = 'C08'
RULE = ('A token list is written as several sources (files and strings), with parts moved into macros with and without '
        'arguments, include files (with decoys of the same name in later directories), conditional regions (with garbage in '
        'the dead branch) and command-line macros; the result must be exactly that token list.  Non-trivial: distinct case '
        'with at least two sources or at least two kinds of preprocessing.')
ASSUMPTIONS = ['Icarus Verilog expands macros, includes and conditionals as IEEE 1364 says',
               'the macro-splitting generator in pv/checks/c08.py inverts expansion correctly']

JUNK = ['endmodule', 'begin', ';', ')', '4\'b1', 'foo', '"s"', '`undef M0', '`define M1 wrong', '`include "nowhere.vh"',
        '`ifdef M0 a `endif', '// x', 'module zz;']


class Split(object):
    def __init__(self, g, toks):
        self.g = g
        self.t = toks
        self.env = {}          # macro name -> anything: currently defined
        self.files = {}        # include files: name -> text
        self.n = 0
        self.feat = set()
        self.dirs = ['inc0', 'inc1/sub', 'inc2']

    def sp(self):
        return self.g.choice([' ', ' ', ' ', '\n', ' // c\n', ' /* c */ '])

    def plain(self, lo, hi, sep=' '):
        return ''.join(self.t[i] + (sep if sep else self.sp()) for i in range(lo, hi))

    def cuts(self, lo, hi, k):
        pts = sorted(self.g.int(lo, hi) for _ in range(k))
        pts = [lo] + pts + [hi]
        return [(a, b) for a, b in zip(pts, pts[1:]) if a < b]

    def fresh(self):
        self.n += 1
        return 'M%d' % (self.n if self.g.bool(0.7) else self.g.int(0, self.n))

    # text without directives, for use inside a macro body; macros used there
    # must stay defined as they are until the use
    def body(self, lo, hi, d, defs):
        out = ''
        for a, b in self.cuts(lo, hi, self.g.int(0, 2) if d else 0):
            if d and self.g.bool(0.5):
                out += self.use(a, b, d - 1, defs) + ' '
            else:
                out += self.plain(a, b)
        return out

    def use(self, lo, hi, d, defs):
        """A macro use that expands to t[lo:hi]; appends the definitions it needs to defs."""
        g = self.g
        self.n += 1
        name = 'N%d' % self.n
        if g.bool(0.4):
            self.feat.add('args')
            cand = [i for i in range(lo, hi) if self.t[i] not in ('(', ')', ',', '[', ']', '{', '}') and '"' not in self.t[i]]
            k = g.int(1, 3)
            idx = sorted(set(g.choice(cand) for _ in range(k))) if cand else []
            if idx:
                params = ['p%dq' % j for j in range(len(idx))]
                order = g.perm(range(len(idx)))
                text = ''
                last = lo
                for j, i in enumerate(idx):
                    text += self.plain(last, i) + params[j] + ' '
                    last = i + 1
                text += self.plain(last, hi)
                defs.append('\n`define %s(%s) %s\n' % (name, ', '.join(params[j] for j in order), text))
                self.env[name] = True
                return '`%s(%s)' % (name, g.choice([',', ', ']).join(self.t[idx[j]] for j in order))
        self.feat.add('nested' if d < 2 else 'macro')
        sub = []
        text = self.body(lo, hi, d, sub)
        order = sub + ['\n`define %s %s\n' % (name, text)]
        if g.bool(0.3):
            order = order[-1:] + order[:-1]      # a body may use what is defined later
        if g.bool(0.2):
            order.insert(0, '\n`define %s wrong wrong\n' % name)
            order[order.index('\n`define %s %s\n' % (name, text))] = '\n`undef %s\n`define %s %s\n' % (name, name, text)
        defs.extend(order)
        self.env[name] = True
        return '`' + name

    def top(self, lo, hi, d):
        g = self.g
        out = ''
        for a, b in self.cuts(lo, hi, g.int(0, 3)):
            k = g.int(0, 9) if d else 0
            if k <= 2:
                out += self.plain(a, b, None)
            elif k <= 4:
                defs = []
                u = self.use(a, b, g.int(1, 2), defs)
                out += ''.join(defs) + self.sp() + u + self.sp()
            elif k == 5:
                # define early under a reusable name, use here
                self.feat.add('redefine')
                name = self.fresh()
                out += '\n`define %s %s\n' % (name, self.plain(a, b))
                out += '`' + name + self.sp()
                self.env[name] = True
                if g.bool(0.3):
                    out += '\n`undef %s\n' % name
                    self.env.pop(name)
            elif k <= 7:
                out += self.cond(a, b, d)
            else:
                self.feat.add('include')
                self.n += 1
                fn = g.choice(['f%d.vh', 'sub/f%d.v']) % self.n
                text = self.top(a, b, d - 1)
                where = g.int(0, 2)
                self.files[self.dirs[where] + '/' + fn] = text + '\n'
                for j in range(where + 1, 3):
                    if g.bool(0.4):
                        self.feat.add('decoy')
                        self.files[self.dirs[j] + '/' + fn] = 'decoy decoy\n'
                out += '\n`include "%s"\n' % fn
        return out

    def cond(self, lo, hi, d):
        g = self.g
        self.feat.add('cond')
        dead = '\n' + '\n'.join(g.choice(JUNK) for _ in range(g.int(0, 3))) + '\n'
        defined = sorted(self.env)
        undefined = [x for x in ['M0', 'M1', 'M2', 'NOT_DEFINED', 'D0', 'D1'] if x not in self.env]
        form = g.int(0, 5)
        if form in (1, 3, 4) and not defined:
            form = 0
        if form in (0, 2, 5) and not undefined:
            form = 1

        def live():
            return self.top(lo, hi, d - 1)
        if form == 0:
            return '\n`ifdef %s\n%s\n`else\n%s\n`endif\n' % (g.choice(undefined), dead, live())
        if form == 1:
            return '\n`ifdef %s\n%s\n`else\n%s\n`endif\n' % (g.choice(defined), live(), dead)
        if form == 2:
            return '\n`ifndef %s\n%s\n`endif\n' % (g.choice(undefined), live())
        if form == 3:
            return '\n`ifndef %s\n%s\n`else\n%s\n`endif\n' % (g.choice(defined), dead, live())
        if form == 4:
            a = g.choice(undefined) if undefined else 'NOT_DEFINED'
            return '\n`ifdef %s\n%s\n`elsif %s\n%s\n`else\n%s\n`endif\n' % (a, dead, g.choice(defined), live(), dead)
        return '\n`ifdef %s\n%s\n`elsif %s\n%s\n`else\n%s\n`endif\n' % (
            g.choice(undefined), dead, g.choice(undefined), dead, live())


def tokens(g):
    b = syntax.Gen(g, fuel=g.int(5, 40), escaped=False, emax=g.int(0, 2))
    b.source(2)
    # Icarus Verilog mistakes comment openers and quotes inside the strings of a macro body
    return ['"s"' if t.k == 's' and any(c in t.s for c in '/`\\') else t.s for t in b.t]


def gen_expand(g):
    toks = tokens(g)
    s = Split(g, toks)
    define = []
    for i in range(g.int(0, 2)):
        name = 'D%d' % i
        s.env[name] = True
        if g.bool():
            v = g.choice(['1', '42', 'wid', '8\'hff'])
            define.append('%s=%s' % (name, v))
            # every token that spells the value may be written as the macro
            for j, t in enumerate(toks):
                if t == v and g.bool(0.7):
                    toks[j] = '`' + name
            if g.bool(0.6):
                cand = [j for j, t in enumerate(toks) if t.isdigit()]
                if cand:
                    toks[g.choice(cand)] = '`' + name
                    s.feat.add('define')
        else:
            define.append(name)
    srcs = []
    for k, (a, b) in enumerate(s.cuts(0, len(toks), g.int(0, 3))):
        text = s.top(a, b, 3) + '\n'
        srcs.append([g.choice(['file', 'text']), text])
    vals = dict(d.split('=') for d in define if '=' in d)
    plain = [vals[t[1:]] if t.startswith('`') else t for t in toks]
    return dict(toks=plain, srcs=srcs, files=s.files, define=define, dirs=s.dirs, feat=sorted(s.feat),
                form=g.choice(['list', 'tuple']), absdirs=g.bool(),
                entry=g.choice(['preprocess', 'VerilogCodeParser', 'parse', 'analyzer']))


def gen_fail(g):
    """The expansion or the parse fails, or succeeds after a failure."""
    toks = tokens(g)
    steps = []
    for _ in range(g.int(1, 3)):
        kind = g.choice(['missing', 'syntax', 'good', 'nofile'])
        steps.append([kind, g.choice(['file', 'text']), g.int(0, len(toks))])
    return dict(toks=toks, steps=steps, entry=g.choice(['preprocess', 'VerilogCodeParser', 'parse', 'analyzer']))


class Box(object):
    """A directory for one case; everything in it and in the directory for
    temporary files is compared before and after."""

    def __enter__(self):
        self.root = os.path.join(core.scratch(), 'case')
        shutil.rmtree(self.root, ignore_errors=True)
        os.makedirs(self.root)
        os.chdir(self.root)
        return self

    def __exit__(self, *a):
        os.chdir(core.scratch())
        shutil.rmtree(self.root, ignore_errors=True)

    def put(self, name, text):
        p = os.path.join(self.root, name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'w') as f:
            f.write(text)

    def snap(self):
        out = {}
        for top in (self.root, core.scratch()):
            for d, ds, fs in os.walk(top):
                if top == core.scratch() and d == top and 'case' in ds:
                    ds.remove('case')
                for f in fs:
                    if f.startswith('parser.out') or f.startswith('parsetab'):
                        continue
                    p = os.path.join(d, f)
                    with open(p, 'rb') as h:
                        out[p] = h.read()
        return out


def run(entry, filelist, include, define):
    """-> (expanded text or None, AST or None)"""
    from pyverilog.vparser import parser, preprocessor
    from pyverilog.dataflow.dataflow_analyzer import VerilogDataflowAnalyzer
    if entry == 'preprocess':
        text = preprocessor.preprocess(filelist, include=include, define=define)
        return text, core.new_parser().parse(text)
    if entry == 'parse':
        ast, directives = parser.parse(filelist, preprocess_include=include, preprocess_define=define, debug=False)
        return None, ast
    if entry == 'VerilogCodeParser':
        p = parser.VerilogCodeParser(filelist, preprocess_include=include, preprocess_define=define, debug=False)
        ast = p.parse()
        again = p.parse()
        if asttree.dump(ast) != asttree.dump(again):
            raise Violation('parsing the same sources again gives another tree')
        text = p.preprocess()
        return text, ast
    p = VerilogDataflowAnalyzer(filelist, 'm', preprocess_include=include, preprocess_define=define)
    return None, p.parse()


def lex(text):
    from pyverilog.vparser.lexer import VerilogLexer

    def err(m, l, c):
        raise Violation('lexer: %s' % m)
    lx = VerilogLexer(error_func=err)
    lx.build()
    lx.input(text)
    out = []
    while True:
        t = lx.token()
        if not t:
            return out
        out.append(t.value)


def show(case):
    return '\n'.join('==== %s\n%s' % (k, t) for k, t in case['srcs']) + '\n'.join(
        '==== %s\n%s' % kv for kv in sorted(case['files'].items())) + '\ndefine: %r' % case['define']


def oracle_expand(case):
    with Box() as box:
        for n, t in case['files'].items():
            box.put(n, t)
        fl = []
        for i, (k, t) in enumerate(case['srcs']):
            if k == 'file':
                box.put('src/s%d.v' % i, t)
                fl.append('src/s%d.v' % i)
            else:
                fl.append(t)
        inc = [os.path.join(box.root, d) if case['absdirs'] else d for d in case['dirs']]
        for d in inc:
            os.makedirs(d, exist_ok=True)
        before = box.snap()
        ref = core.new_parser().parse(' '.join(case['toks']))
        arg = fl[0] if len(fl) == 1 and case['form'] == 'list' else tuple(fl) if case['form'] == 'tuple' else fl
        keep = list(fl)
        text, ast = run(case['entry'], arg, inc, case['define'])
        after = box.snap()
        if list(fl) != keep:
            raise Violation('the list of sources was modified')
        if text is not None:
            got = lex(text)
            if got != case['toks']:
                i = [a == b for a, b in zip(got + [None], case['toks'] + [None])].index(False)
                raise Violation('token %d is %r, expected %r\n%s' % (
                    i, (got + [None])[i], (case['toks'] + [None])[i], show(case)))
        d = asttree.first_diff(asttree.dump(ref), asttree.dump(ast))
        if d:
            raise Violation('tree differs from that of the expanded text: %s\n%s' % (d, show(case)))
        check_files(before, after)


def check_files(before, after):
    for p in sorted(set(before) | set(after)):
        if p not in before:
            raise Violation('file left behind: %s' % os.path.basename(p))
        if p not in after:
            raise Violation('file removed: %s' % os.path.basename(p))
        if before[p] != after[p]:
            raise Violation('file modified: %s' % os.path.basename(p))


def oracle_fail(case):
    from pyverilog.vparser.parser import ParseError
    ref = asttree.dump(core.new_parser().parse(' '.join(case['toks'])))
    with Box() as box:
        for i, (kind, form, at) in enumerate(case['steps']):
            t = list(case['toks'])
            if kind == 'missing':
                t.insert(at, '\n`include "no_such_file.vh"\n')
            elif kind == 'syntax':
                t.insert(at, '= ] [ = ;')
            text = ' '.join(t) + '\n'
            src = text
            if kind == 'nofile':
                src = 'no_such_file.v'
            elif form == 'file':
                box.put('s%d.v' % i, text)
                src = 's%d.v' % i
            before = box.snap()
            err = ast = None
            try:
                _, ast = run(case['entry'], [src], [box.root], [])
            except ParseError as e:
                err = 'parse'
            except (subprocess.CalledProcessError, OSError) as e:
                err = 'preprocess'
            check_files(before, box.snap())
            if kind == 'good':
                if err:
                    raise Violation('step %d: valid source rejected after %s' % (i, case['steps'][:i]))
                d = asttree.first_diff(ref, asttree.dump(ast))
                if d:
                    raise Violation('step %d: wrong tree after %s: %s' % (i, case['steps'][:i], d))
            elif err is None:
                raise Violation('step %d: %s accepted without an error\n%s' % (i, kind, text))


SUBS = [
    Sub('expand', gen_expand, oracle_expand, quick=5000, nontrivial=lambda c: len(c['srcs']) >= 2 or len(c['feat']) >= 2,
        labels=lambda c: c['feat'] + [c['entry']], show=show),
    Sub('fail', gen_fail, oracle_fail, quick=800, nontrivial=lambda c: len(c['steps']) >= 2,
        labels=lambda c: ['%s/%s' % (s[0], c['entry']) for s in c['steps']]),
]

