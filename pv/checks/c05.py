"""C05: malformed source is rejected with a parse error and leaves no trace."""
import re

from pv import asttree, core, syntax
from pv.core import Sub, Violation
from pv.checks import c01

PID = 'C05'
RULE = ('mutate: valid texts with 1-6 random edits (characters, tokens and lines deleted, duplicated, swapped, inserted); soup: '
        'random sequences of Verilog tokens and stray characters; removed: valid texts without one bracket, block keyword, '
        'terminating semicolon or assignment sign; trace: the same parser object used for a history of good and bad texts.  '
        'Non-trivial: distinct text of at least 20 characters.')
ASSUMPTIONS = ['the removed tokens are required by the grammar in every context']

PAIRS = ['(', ')', '[', ']', '{', '}']
BLOCKS = ['module', 'endmodule', 'begin', 'end', 'case', 'casex', 'casez', 'endcase', 'function', 'endfunction', 'task',
          'endtask', 'generate', 'endgenerate', 'fork', 'join']
SOUP = sorted(syntax.KEYWORDS) + ['a', 'b', '\\x[ ', '0', "4'b01", "8'shF", '1.5', '"s"', '(', ')', '[', ']', '{', '}', ';', ',',
                                  '.', ':', '=', '<=', '+', '-', '*', '&', '|', '~', '^', '?', '#', '@', '$', '<<', '>>>',
                                  '==', '&&', '+:', '-:', '`x\n', '//\n', '/*', '*/', '"', "'", '\\', '\x00', 'é', '!', '1a']


def base(g):
    b = syntax.Gen(g, fuel=g.int(3, 30), emax=g.int(0, 3), opts=('bare_always',))
    if g.bool():
        b.source(2)
    else:
        b.procs()
    return b


def gen_mutate(g):
    b = base(g)
    toks = [t.s for t in b.t]
    seps = syntax.layout(g, b.t, style=g.weighted([(3, 'space'), (2, 'mixed'), (1, 'wild')]), directives=True)
    text, _ = syntax.join(b.t, seps)
    for _ in range(g.int(1, 6)):
        n = len(text)
        if n == 0:
            break
        i = g.int(0, n - 1)
        k = g.int(0, 6)
        j = min(n, i + g.weighted([(4, 1), (2, 3), (1, 10), (1, 40)]))
        if k == 0:
            text = text[:i] + text[j:]
        elif k == 1:
            text = text[:i] + g.choice(SOUP) + text[i:]
        elif k == 2:
            text = text[:i] + ' ' + g.choice(SOUP) + ' ' + text[j:]
        elif k == 3:
            text = text[:j] + text[i:j] + text[j:]
        elif k == 4:
            m = g.int(0, n - 1)
            text = text[:i] + text[j:]
            text = text[:m] + text[i:j] + text[m:]
        elif k == 5:
            text = text[:i]
        else:
            # whole tokens
            ws = text.split(' ')
            if len(ws) > 2:
                p, q = g.int(0, len(ws) - 1), g.int(0, len(ws) - 1)
                ws[p], ws[q] = ws[q], ws[p]
                text = ' '.join(ws)
    return dict(text=text)


def gen_soup(g):
    n = g.int(1, 25)
    s = [g.choice(SOUP) for _ in range(n)]
    pre = g.choice(['', 'module m;', 'module m; always @(*) begin', 'module m(', 'module m; assign a =',
                    'module m; initial begin', 'module m; generate', 'module m; function f; input a;', 'module m; a #('])
    post = g.choice(['', 'endmodule', 'end endmodule', ';'])
    return dict(text=' '.join([pre] + s + [post]))


def gen_removed(g):
    b = base(g)
    cand = [i for i, t in enumerate(b.t) if not t.opt and
            (t.k == 'p' and t.s in PAIRS + [';', '='] or t.k == 'w' and t.s in BLOCKS)]
    i = cand[g.int(0, len(cand) - 1)]
    t = b.t[i]
    toks = b.t[:i] + b.t[i + 1:]
    seps = syntax.layout(g, toks, style=g.choice(['space', 'mixed', 'lines']))
    text, _ = syntax.join(toks, seps)
    return dict(text=text, tok=t.s, before=' '.join(x.s for x in b.t[max(0, i - 6):i]), after=' '.join(x.s for x in toks[i:i + 6]))


def gen_trace(g):
    out = []
    for _ in range(g.int(2, 5)):
        b = base(g)
        seps = syntax.layout(g, b.t, style=g.choice(['space', 'mixed', 'lines', 'wild']), directives=True)
        text, _ = syntax.join(b.t, seps)
        if g.bool(0.5):
            i = g.int(0, len(text))
            text = g.choice([text[:i], text[i:], text[:i] + '"' + text[i:], text[:i] + ' ; ; ) ' + text[i:]])
        out.append(text)
    return dict(texts=out)


def check_reject(e, text):
    """The documented error, pointing at a place of the input."""
    from pyverilog.vparser.parser import ParseError
    if type(e) is not ParseError:
        raise Violation('%s instead of a parse error: %s' % (type(e).__name__, e))
    m = re.search(r'line:(\d+)', str(e))
    if m is None:
        return
    n = int(m.group(1))
    lines = text.split('\n')
    if not 1 <= n <= len(lines):
        raise Violation('the parse error names line %d of %d: %s' % (n, len(lines), e))
    m = re.search(r'before: "(.*)"$', str(e), re.S)
    if m:
        first = m.group(1).split('\n')[0]
        if first not in lines[n - 1]:
            raise Violation('the parse error is not about line %d: %s' % (n, e))


def try_parse(p, text):
    try:
        ast = p.parse(text)
    except Exception as e:
        check_reject(e, text)
        return ('rejected', str(e), p.get_directives())
    if type(ast).__name__ != 'Source':
        raise Violation('parse returned %r' % ast)
    return ('tree', with_lines(ast), p.get_directives())


def with_lines(ast):
    out = []

    def go(n):
        if isinstance(n, (list, tuple)):
            for x in n:
                go(x)
        elif asttree.is_node(n):
            out.append((type(n).__name__, n.lineno, getattr(n, 'end_lineno', None)))
            for f in asttree.FIELDS[type(n).__name__]:
                go(getattr(n, f, None))
        else:
            out.append(n)
    go(ast)
    return tuple(out)


def oracle_any(case):
    try:
        try_parse(core.new_parser(), case['text'])
    except Violation as v:
        raise Violation('%s\n%s' % (v, case['text']))


def oracle_removed(case):
    r = try_parse(core.new_parser(), case['text'])
    if r[0] != 'rejected':
        raise Violation('accepted although %r is missing between  %s  and  %s\n%s' % (
            case['tok'], case['before'], case['after'], case['text']))


def oracle_trace(case):
    p = core.new_parser()
    for i, t in enumerate(case['texts']):
        got = try_parse(p, t)
        want = try_parse(core.new_parser(), t)
        if got != want:
            raise Violation('text %d parses differently after the earlier ones: %s / %s\n%s' % (
                i, asttree.cut(got), asttree.cut(want), '\n-----\n'.join(case['texts'])))


UNITS = ['\\101', '\\x41', '\\n', '\\\\', '\\"', 'a', '0', '_', "'", '?', '/*', '*/', '*', '//', '1e', '1.', '.', '~', '<', '=', '\\',
         '`', '"', ' ', '\n', "4'b1", '$', 'x', 'é', '\\7', '\\1\\12']
NESTED = ['(', '{', 'begin ', 'a[', '-', '~(', 'a?', 'if(a) ', 'a+', 'case(a) b: ', 'for(a=0;a;a=a) ', '{1{', 'if(a) b=c; else ']


def gen_long(g):
    n = g.choice([10, 40, 200, 3000, 12000])
    unit = ''.join(g.choice(UNITS) for _ in range(g.int(1, 3)))
    if g.bool(0.3):
        n = min(n, 250)
        unit = g.choice(NESTED)
    pre = g.choice(['', 'module m; initial a = "', 'module m; assign a = ', 'module ', 'module m; initial ', '/*', '//', '`',
                    'module m; initial $display("', "module m; assign a = 8'h", 'module \\', 'module m; wire '])
    post = g.choice(['', ';', '"', '\n', '; endmodule', '*/', '"; endmodule'])
    return dict(pre=pre, unit=unit, n=n, post=post)


def oracle_long(case):
    oracle_any(dict(text=case['pre'] + case['unit'] * case['n'] + case['post']))


SUBS = [
    Sub('mutate', gen_mutate, oracle_any, quick=8000, nontrivial=lambda c: len(c['text']) >= 20, show=lambda c: c['text']),
    Sub('soup', gen_soup, oracle_any, quick=4000, nontrivial=lambda c: len(c['text']) >= 20, show=lambda c: c['text']),
    Sub('removed', gen_removed, oracle_removed, quick=6000, nontrivial=lambda c: len(c['text']) >= 20,
        labels=lambda c: [c['tok']], show=lambda c: c['text']),
    Sub('long', gen_long, oracle_long, quick=800, nontrivial=lambda c: c['n'] >= 40),
    Sub('trace', gen_trace, oracle_trace, quick=1600, nontrivial=lambda c: len(c['texts']) >= 2),
]
