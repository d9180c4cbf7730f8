"""C22: analyses are deterministic and independent of one another."""
import json
import os
import re
import subprocess
import sys

from pv import core, dfcheck
from pv.checks import c15, c16

PID = 'C22'
RULE = ('a case is a history of 4-12 analyses over 1-2 generated designs: parsing, code generation, dataflow, constant resolution, walking, '
        'merging, graphs, subsets, state machines, active conditions, identifiers, each on a new or on an earlier result.  Every result '
        'is compared with the first one of the same request, with all earlier results at the end, and (process) with another process with '
        'another hash seed doing the requests in another order.  Non-trivial: at least two kinds of analysis share one earlier result.')
ASSUMPTIONS = ['results are compared by their text: show(), generated code, tostr(), tocode(), DOT', 'renaming identifiers changes the tree on purpose and is not part of a history',
               'a request that fails must fail in the same way every time']

KINDS = ['parse', 'code', 'ids', 'analyze', 'noreorder', 'nobind', 'resolve', 'walk', 'walk', 'merge', 'graph', 'subset', 'fsm', 'active']


def plain(s):
    return re.sub(r'0x[0-9a-f]{6,}', '0x', s)


class World(object):
    """what a history has built so far"""

    def __init__(self, designs):
        self.designs = designs
        self.asts = [[] for _ in designs]
        self.anas = [[] for _ in designs]
        self.opts = [[] for _ in designs]
        self.kept = []              # (request, dump function, first dump)

    def parse(self, i):
        a = core.new_parser().parse(self.designs[i]['text'])
        self.asts[i].append(a)
        self.kept.append(('syntax tree of design %d' % i, lambda: show(a), show(a)))
        return a

    def analyze(self, i, **kw):
        a = dfcheck.analyze(self.designs[i]['text'], self.designs[i]['top'], **kw)
        self.kept.append(('dataflow of design %d' % i, lambda: dataflow(a), dataflow(a)))
        return a

    def ana(self, i, pick):
        l = self.anas[i]
        if not l or pick is None:
            l.append(self.analyze(i))
            return l[-1]
        return l[pick % len(l)]

    def resolved(self, i, pick):
        from pyverilog.dataflow.optimizer import VerilogDataflowOptimizer
        l = self.opts[i]
        if not l or pick is None:
            a = self.ana(i, pick)
            o = VerilogDataflowOptimizer(a.getTerms(), a.getBinddict())
            o.resolveConstant()
            l.append((a, o))
            self.kept.append(('resolved dataflow of design %d' % i, lambda: resolved(o), resolved(o)))
            return l[-1]
        return l[pick % len(l)]

    def args(self, i, pick):
        a, o = self.resolved(i, pick)
        return (self.designs[i]['top'], a.getTerms(), a.getBinddict(), o.getResolvedTerms(), o.getResolvedBinddict(), o.getConstlist())

    def signals(self, i, a):
        return list(a[1])

    def request(self, kind, i, pick, k):
        if kind == 'parse':
            return show(self.parse(i))
        if kind in ('code', 'ids'):
            l = self.asts[i]
            ast = self.parse(i) if not l or pick is None else l[pick % len(l)]
            if kind == 'code':
                from pyverilog.ast_code_generator.codegen import ASTCodeGenerator
                return ASTCodeGenerator().visit(ast)
            from pyverilog.utils.identifiervisitor import getIdentifiers
            return '\n'.join(str(x) for x in getIdentifiers(ast))
        if kind == 'analyze':
            a = self.analyze(i)
            self.anas[i].append(a)
            return dataflow(a)
        if kind == 'noreorder':
            return dataflow(self.analyze(i, noreorder=True))
        if kind == 'nobind':
            return dataflow(self.analyze(i, nobind=True))
        if kind == 'resolve':
            return resolved(self.resolved(i, pick)[1])
        args = self.args(i, pick)
        sigs = list(args[1])
        s = sigs[k % len(sigs)]
        if kind == 'walk':
            from pyverilog.dataflow.walker import VerilogDataflowWalker
            t = VerilogDataflowWalker(*args).walkBind(str(s) if '[' not in str(s) else s, k % 3)
            if t is None:
                return 'None'
            self.kept.append(('walked tree of %s' % s, lambda: t.tostr(), t.tostr()))
            return t.tostr()
        if kind == 'merge':
            from pyverilog.dataflow.merge import VerilogDataflowMerge
            m = VerilogDataflowMerge(*args)
            return '\n'.join('%s %s' % (n, tree(m.getTree(n))) for n in sigs) + tree(m.getTree(s))
        if kind == 'graph':
            from pyverilog.dataflow.graphgen import VerilogGraphGenerator
            g = VerilogGraphGenerator(*(args + ('out.png',)))
            g.generate(str(s), identical=bool(k & 1), walk=bool(k & 2), step=k % 3, do_reorder=bool(k & 4), delay=bool(k & 8))
            return g.graph.to_string()
        if kind == 'subset':
            from pyverilog.dataflow.subset import VerilogSubset
            from pyverilog.utils import util
            parts = VerilogSubset(*args).getSubset([str(s)])
            return '\n'.join(sorted(str(x) + ' ' + ' '.join(sorted(b.tostr() for b in (y if isinstance(y, (set, list, tuple)) else [y])))
                                    for p in parts for x, y in p.items()))
        if kind == 'fsm':
            from pyverilog.controlflow.controlflow_analyzer import VerilogControlflowAnalyzer
            out = []
            loops, fsms = VerilogControlflowAnalyzer(*args, fsm_vars=('n', 'r', 's')).getLoops()
            for n, f in fsms.items():
                out.append('%s %s %s %s' % (n, f.delaycnt, sorted((a, tree(c), d) for a, x in f.fsm.items() for c, d in x.items()),
                                            sorted((tree(c), d) for c, d in f.any.items())))
            return '\n'.join(out) + str(sorted((str(n), sorted(l)) for n, l in loops.items()))
        if kind == 'active':
            from pyverilog.controlflow.active_analyzer import VerilogActiveConditionAnalyzer
            from pyverilog.controlflow import splitter
            d = VerilogActiveConditionAnalyzer(*args).getActiveConditions(s, splitter.active_modify if k & 1 else splitter.active_constant)
            return str([(str(x), [(v, tree(c)) for v, c in y]) for x, y in d.items()])
        raise core.HarnessError(kind)


def tree(t):
    return t.tostr() if hasattr(t, 'tostr') else str(t)


def show(ast):
    import io
    b = io.StringIO()
    ast.show(buf=b, attrnames=True, showlineno=True)
    return b.getvalue()


def term(t):
    return '%s %s %s %s' % (t.tostr(), t.isTopmodule('x') if False else '', [[tree(x) for x in d] for d in t.dims or ()], t.tocode())


def bind(b):
    return '%s [%s:%s:%s] %s %s %s %s' % (b.tostr(), tree(b.msb), tree(b.lsb), tree(b.ptr), b.getClockName(), b.getClockEdge(),
                                         b.getResetName(), b.getResetEdge())


def dataflow(a):
    return '\n'.join([term(t) for t in (a.getTerms() or {}).values()] + ['%s %s' % (k, bind(b)) for k, bs in (a.getBinddict() or {}).items() for b in bs] +
                     [str(a.getInstances()), str(list(a.getSignals())), str(list(a.getConsts()))])


def resolved(o):
    return '\n'.join([term(t) for t in o.getResolvedTerms().values()] +
                     ['%s %s' % (k, bind(b)) for k, bs in o.getResolvedBinddict().items() for b in bs] +
                     ['%s %s' % (k, tree(v)) for k, v in o.getConstlist().items()])


def ask(w, r):
    try:
        return plain(w.request(*r))
    except (core.Hang, MemoryError, core.HarnessError):
        raise
    except Exception as e:
        return plain('%s: %s' % (type(e).__name__, e))


def differ(a, b):
    la, lb = a.split('\n'), b.split('\n')
    for x, y in zip(la, lb):
        if x != y:
            i = next((i for i, (p, q) in enumerate(zip(x, y)) if p != q), min(len(x), len(y)))
            i = max(0, i - 60)
            return '%r instead of %r' % (y[i:i + 260], x[i:i + 260])
    return '%d lines instead of %d' % (len(lb), len(la))


def gen_with(g, n):
    ds = []
    for _ in range(g.choice([1, 1, 2])):
        k = g.choice(['walk', 'hier', 'hier'])
        c = c16.gen(g) if k == 'walk' else c15.gen(g)
        ds.append(dict(text=c['text'], top=c['top']))
    ops = []
    for _ in range(g.int(4, n)):
        if ops and g.bool(0.4):
            o = list(g.choice(ops))
            o[2] = g.choice([None, 0, 1, 2])
            ops.append(o)
        else:
            ops.append([g.choice(KINDS), g.int(0, len(ds) - 1), g.choice([None, 0, 0, 1]), g.int(0, 40)])
    return dict(designs=ds, ops=ops)


def gen(g):
    return gen_with(g, 12)


def history(case):
    w = World(case['designs'])
    first = {}
    out = []
    for n, (kind, i, pick, k) in enumerate(case['ops']):
        key = (kind, i, k if kind in ('walk', 'merge', 'graph', 'subset', 'active') else 0)
        r = ask(w, (kind, i, pick, k))
        if key not in first:
            first[key] = r
        elif first[key] != r:
            raise core.Violation('step %d: %s of design %d: %s' % (n, kind, i, differ(first[key], r)))
        out.append(r)
    for what, f, d in w.kept:
        try:
            now = f()
        except Exception as e:
            now = '%s: %s' % (type(e).__name__, e)
        if now != d:
            raise core.Violation('%s has changed: %s' % (what, differ(d, now)))
    return out


def oracle(case):
    history(case)


def gen_process(g):
    c = gen_with(g, 8)
    c['hash'] = g.int(1, 1 << 20)
    c['order'] = g.perm(list(range(len(c['ops']))))
    c['fresh'] = g.bool(0.03)
    return c


def oracle_process(case):
    here = history(case)
    tab = sys.modules.get('pyverilog.vparser.parsetab')
    q = dict(designs=case['designs'], ops=[case['ops'][i] for i in case['order']],
             tab=None if case['fresh'] or tab is None else tab.__file__)
    env = dict(os.environ, PYTHONHASHSEED=str(case['hash']))
    root = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    p = subprocess.run([sys.executable, '-c', 'import sys; sys.path.insert(0, %r)\nfrom pv.checks import c22\nc22.child()' % root],
                       input=json.dumps(q).encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=120)
    if p.returncode != 0:
        raise core.HarnessError('child: ' + p.stderr.decode()[-800:])
    there = json.loads(p.stdout.decode())
    for n, i in enumerate(case['order']):
        if there[n] != here[i]:
            raise core.Violation('hash seed %d: %s of design %d: %s' % (case['hash'], case['ops'][i][0], case['ops'][i][1],
                                                                       differ(here[i], there[n])))


def child():
    q = json.loads(sys.stdin.read())
    core.setup_process()
    try:
        if q['tab']:
            import importlib.util
            import pyverilog.vparser
            name = 'pyverilog.vparser.parsetab'
            spec = importlib.util.spec_from_file_location(name, q['tab'])
            mod = importlib.util.module_from_spec(spec)
            spec.loader.exec_module(mod)
            sys.modules[name] = mod
            pyverilog.vparser.parsetab = mod
            os.makedirs(os.path.join(core.scratch(), 'tab'))
            core._SUT = True
        core.load_sut()
        w = World(q['designs'])
        with core.quiet():
            out = [ask(w, r) for r in q['ops']]
        sys.stdout.write(json.dumps(out))
    finally:
        core.cleanup_process()


def nontrivial(c):
    return len(set(o[0] for o in c['ops'] if o[2] is not None)) >= 2


def text(c):
    return '\n'.join('// design %d, top %s\n%s' % (i, d['top'], d['text']) for i, d in enumerate(c['designs'])) + '\n// %s\n' % c['ops']


SUBS = [core.Sub('history', gen, oracle, quick=400, thorough=8000, nontrivial=nontrivial, labels=lambda c: sorted(set(o[0] for o in c['ops'])),
                 show=text, cpu=20),
        core.Sub('process', gen_process, oracle_process, quick=100, thorough=2500, nontrivial=nontrivial,
                 labels=lambda c: sorted(set(o[0] for o in c['ops'])), show=text, cpu=30)]
