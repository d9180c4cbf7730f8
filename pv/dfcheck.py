"""Common parts of the dataflow checks: analyse a design, simulate it, compare."""
import re

from pv import core, designs, dfeval, sim


def analyze(text, top, noreorder=False, **kw):
    from pyverilog.dataflow.dataflow_analyzer import VerilogDataflowAnalyzer
    path = core.write('in.v', text)
    a = VerilogDataflowAnalyzer([path], top, noreorder=noreorder, **kw)
    a.generate()
    return a


def simulate(text):
    try:
        return sim.table(sim.compile_and_run(sim.started(text)))
    except sim.Bad as e:
        raise core.HarnessError('iverilog rejects a generated design: %s\n%s' % (e, text))


def valuation(case, i):
    top = case['top']
    vals = dict(('%s.%s' % (top, n), v) for n, v in case['vecs'][i].items())
    for n, w, a in case['regs']:
        v = case['states'][i][n]
        vals['%s.%s' % (top, n)] = dict(enumerate(v)) if a else v
    for n in case['clks'] + ([case['rst']] if case['rst'] else []):
        vals['%s.%s' % (top, n)] = case['events'][i]['level'][n] if 'events' in case else 0
    return vals


def canonical(s):
    """The Verilog spelling of a scope that lies in a generate construct."""
    s = re.sub(r'md_generate\d+\.', '', s)
    s = re.sub(r'ge_for\d+\[(\d+)\]\.(\w+)', r'\2[\1]', s)
    return s


def bykey(d):
    return dict((canonical(str(k)), k) for k in d)


def actual(vals, names):
    return dict((str(names.get(k, k)), v) for k, v in vals.items())


def compare_comb(case, terms, binddict, rows):
    top = case['top']
    names = bykey(terms)
    for n, w in case['obs']:
        if '%s.%s' % (top, n) not in names:
            raise core.Violation('no term for signal %s' % n)
    for i, row in enumerate(rows):
        ev = dfeval.Eval(terms, binddict, actual(valuation(case, i), names))
        for (n, w), want in zip(case['obs'], row):
            if want is None:
                continue
            try:
                b, x, ew = ev.term(names['%s.%s' % (top, n)])
            except (dfeval.EvalError, dfeval.Loop, dfeval.Hold) as e:
                raise core.Violation('%s: no value: %s %r\n%s' % (n, type(e).__name__, str(e), show(binddict, names, top, n)))
            if ew != w:
                raise core.Violation('%s: width %d, not %d' % (n, ew, w))
            if x or b != want:
                raise core.Violation('%s = %s, simulation says %s (vector %d: %s)\n%s' % (
                    n, bits(b, x, w), format(want, '0%db' % w), i, dict(case['vecs'][i]), show(binddict, names, top, n)))


def around(case, terms, binddict, i, names, consts=None):
    """Evaluators of the design before and after event i (registers keep their old value)."""
    top, ev = case['top'], case['events'][i]
    pre, post = valuation(case, i), valuation(case, i)
    for c, l in ev['level'].items():
        pre['%s.%s' % (top, c)] = post['%s.%s' % (top, c)] = l
    post['%s.%s' % (top, ev['flip'])] = 1 - ev['level'][ev['flip']]
    binds = binddict if consts is None else consts
    return dfeval.Eval(terms, binddict, actual(pre, names)), dfeval.Eval(terms, binds, actual(post, names))


def fires(before, after, b):
    """Does the event run the block of binding b?"""
    for name, edge in ((b.getClockName(), b.getClockEdge()), (b.getResetName(), b.getResetEdge())):
        if name is None or edge is None:
            continue
        v, x, _ = before.term(name)
        c, y, _ = after.term(name)
        if x or y:
            raise core.Violation('clock or reset %s has no value' % name)
        if (v & 1, c & 1) == ((0, 1) if edge == 'posedge' else (1, 0)):
            return True
    return False


def next_state(case, names, terms, binddict, i, n, w, a):
    """Value of register n after event i: (bits, unknown) or a dict of them."""
    top = case['top']
    before, after = around(case, terms, binddict, i, names)
    dest = names.get('%s.%s' % (top, n))
    if dest is None:
        raise core.Violation('no term for register %s' % n)
    old = case['states'][i][n]
    val = dict((j, (v, 0)) for j, v in enumerate(old)) if a else {None: (old, 0)}
    seen = set()
    for b in binddict.get(dest, ()):
        if b.isCombination():
            raise core.Violation('register %s has a combinational binding' % n)
        if not fires(before, after, b):
            continue
        msb, lsb = after.range(dest)
        hi, lo = after.bind_range(b, msb, lsb)
        try:
            vb, vx, vw = after.eval(b.tree)
            j = None
            if a:
                if b.ptr is None:
                    raise core.Violation('array %s assigned without index' % n)
                pb, px, _ = after.eval(b.ptr)
                if px:
                    raise core.Violation('array index of %s unknown' % n)
                j = pb
        except dfeval.Hold:
            continue
        if a and j in seen:
            val[j] = (0, dfeval.mask(w))       # two assignments to one element: not compared
            continue
        seen.add(j)
        if j not in val:
            continue
        vb, vx, vw = dfeval.ext((vb, vx, vw), hi - lo + 1)
        m = dfeval.mask(hi - lo + 1) << (lo - lsb)
        ob, ox = val[j]
        val[j] = ((ob & ~m) | (vb << (lo - lsb)), (ox & ~m) | (vx << (lo - lsb)))
    return val


def compare_seq(case, terms, binddict, rows):
    """rows: two per vector, before and after the event."""
    names = bykey(terms)
    compare_comb(case, terms, binddict, rows[0::2])
    for i, row in enumerate(rows[1::2]):
        k = 0
        for n, w, a in case['regs']:
            try:
                val = next_state(case, names, terms, binddict, i, n, w, a)
            except (dfeval.EvalError, dfeval.Loop) as e:
                raise core.Violation('%s: no next value: %s %r\n%s' % (n, type(e).__name__, str(e), show(binddict, names, case['top'], n)))
            for j in (range(a) if a else [None]):
                want = row[k]
                k += 1
                b, x = val[j]
                if a and x == dfeval.mask(w):
                    continue
                if x or b != want:
                    raise core.Violation('%s%s becomes %s, simulation says %s (vector %d: %s, state %s, event %s)\n%s' % (
                        n, '' if j is None else '[%d]' % j, bits(b, x, w), format(want, '0%db' % w) if want is not None else 'x', i,
                        case['vecs'][i], case['states'][i], case['events'][i], show(binddict, names, case['top'], n)))


def bits(b, x, w):
    return ''.join('x' if x >> i & 1 else str(b >> i & 1) for i in reversed(range(w)))


def show(binddict, names, top, n):
    out = []
    for b in binddict.get(names['%s.%s' % (top, n)], ()):
        out.append(b.tostr()[:1500])
    return '\n'.join(out)
