"""C06: layout, comments and directives never change tokens or trees; literals stay verbatim."""
from pv import asttree, core, syntax
from pv.core import Sub, Violation

PID = 'C06'
RULE = ('tokens: one token list laid out twice, the lexer must return exactly these spellings with one kind per token and the '
        'right lines; trees: the same for the parser, plus the list of directives with text and line; soup: random token '
        'lists that need not parse; nettype: the default_nettype in force for each module.  Non-trivial: distinct case with '
        'at least 20 tokens and at least one comment, directive or line break.')
ASSUMPTIONS = ['the rules in pv/syntax.py for when two tokens need a separator']

WS = ['\r\n', '\f', '\r', '\t\t', ' \r\n\r\n']


def two_layouts(g, toks, directives):
    out = []
    for k in range(2):
        style = g.choice(['space', 'tight', 'mixed', 'lines', 'wild', 'wild'])
        seps = syntax.layout(g, toks, style=style, directives=directives)
        if g.bool(0.15):
            i = g.int(0, len(seps) - 1)
            if seps[i].isspace():
                seps[i] = seps[i] + g.choice(WS)
        # a comment or directive may be the last thing in the file, without newline
        if g.bool(0.15):
            seps[-1] = ' ' + g.choice(syntax.LINECOMMENTS + ['`celldefine', '/* */'])
        text, lines = syntax.join(toks, seps)
        out.append(dict(text=text, lines=lines, seps=seps))
    return out


def directives_of(lay, toks):
    """(line, text) of the directives, from the separators."""
    out = []
    line = 1
    for i, s in enumerate(lay['seps']):
        j = 0
        while j < len(s):
            if s.startswith('//', j):
                k = s.find('\n', j)
                j = len(s) if k < 0 else k
            elif s.startswith('/*', j):
                k = s.index('*/', j + 2) + 2
                line += s.count('\n', j, k)
                j = k
            elif s[j] == '`':
                k = s.find('\n', j)
                k = len(s) if k < 0 else k + 1
                out.append((line, s[j:k]))
                line += s.count('\n', j, k)
                j = k
            else:
                line += s[j] == '\n'
                j += 1
        if i < len(toks):
            line += toks[i].count('\n')
    return out


def pack(g, b, directives=True):
    lays = two_layouts(g, b.t, directives)
    return dict(toks=[t.s for t in b.t], kinds=[t.k for t in b.t], lays=lays)


def gen_trees(g):
    b = syntax.Gen(g, fuel=g.int(5, 50), emax=g.int(0, 4), opts=('bare_always',))
    if g.bool():
        b.source(2)
    else:
        b.procs()
    return pack(g, b)


def gen_soup(g):
    """Tokens in random order."""
    b = syntax.Gen(g, fuel=100)
    ops = list(syntax.BINOPS) + list(syntax.UNOPS) + ['(', ')', '[', ']', '{', '}', ';', ',', '.', ':', '=', '@', '#', '?', '+:',
                                                      '-:', '<=']
    for _ in range(g.int(2, 30)):
        k = g.int(0, 9)
        if k <= 3:
            b.p(g.choice(ops))
        elif k == 4:
            b.w(g.choice(sorted(syntax.KEYWORDS)))
        elif k == 5:
            b.ident(b.name())
        elif k == 6:
            b.num(b.intlit())
        elif k == 7:
            b.num(b.floatlit())
        elif k == 8:
            b.string(b.strlit())
        else:
            b.ident(b.name())
    return pack(g, b)


KIND = {'w': None, 'e': 'ID', 's': 'STRING_LITERAL'}


def lex(text):
    from pyverilog.vparser.lexer import VerilogLexer
    lx = VerilogLexer(error_func=fail)
    lx.build()
    lx.input(text)
    out = []
    while True:
        t = lx.token()
        if not t:
            return out, lx.get_directives()
        out.append((t.value, t.type, t.lineno, t.lexpos))


def fail(msg, line, col):
    raise Violation('the lexer reports %s at line %s column %s' % (msg, line, col))


def kind_of(s, k):
    """The token class a spelling belongs to, where it is obvious."""
    if k == 'w':
        return s.upper() if s in syntax.KEYWORDS and s != 'or' else 'SENS_OR' if s == 'or' else 'ID'
    if k in ('e', 's'):
        return KIND[k]
    if k == 'n':
        if "'" in s:
            r = s.split("'")[1].lower()
            sg = 'SIGNED_' if r.startswith('s') else ''
            base = r.lstrip('s')[0]
            return sg + 'INTNUMBER_' + {'b': 'BIN', 'o': 'OCT', 'd': 'DEC', 'h': 'HEX'}[base]
        return 'FLOATNUMBER' if any(c in s for c in '.eE') else 'INTNUMBER_DEC'
    return None


def oracle_tokens(case):
    for lay in case['lays']:
        try:
            got, dirs = lex(lay['text'])
            if [t[0] for t in got] != case['toks']:
                for a, b in zip([t[0] for t in got] + [None], case['toks'] + [None]):
                    if a != b:
                        raise Violation('token %r became %r' % (b, a))
            for (v, ty, ln, pos), s, k, l in zip(got, case['toks'], case['kinds'], lay['lines']):
                want = kind_of(s, k)
                if want is not None and ty != want:
                    raise Violation('token %r has kind %s, not %s' % (s, ty, want))
                if ln != l:
                    raise Violation('token %r is on line %d, reported %d' % (s, l, ln))
                if not lay['text'].startswith(s, pos):
                    raise Violation('token %r is not at offset %d' % (s, pos))
            check_dirs(dirs, lay, case['toks'])
        except Violation as v:
            raise Violation('%s\n%s' % (v, lay['text']))
    a, b = [[(t[0], t[1]) for t in lex(l['text'])[0]] for l in case['lays']]
    if a != b:
        raise Violation('token kinds depend on the layout\n' + case['lays'][0]['text'] + '\n---\n' + case['lays'][1]['text'])
    # the token dump lists the same tokens
    from pyverilog.vparser.lexer import dump_tokens
    dump = dump_tokens(case['lays'][0]['text'])
    if len(dump.split('\n')) - 1 - sum(s.count('\n') for s in case['toks']) != len(case['toks']):
        raise Violation('dump_tokens lists %d lines for %d tokens' % (dump.count('\n'), len(case['toks'])))
    pos = 0
    for s, l in zip(case['toks'], case['lays'][0]['lines']):
        line_end = dump.index('\n', pos)
        line = dump[pos:line_end]
        if not line.startswith(s + ' ') or line.split(' ')[-3 if line.split(' ')[-2] == '' else -3] != str(l):
            raise Violation('dump_tokens: %r for token %r of line %d' % (line, s, l))
        pos = line_end + 1


def check_dirs(dirs, lay, toks):
    want = directives_of(lay, toks)
    got = [(l, t) for l, t in dirs]
    if got != want:
        raise Violation('directives %r expected, %r reported' % (want, got))


def oracle_trees(case):
    out = []
    for lay in case['lays']:
        p = core.new_parser()
        out.append(asttree.dump(p.parse(lay['text'])))
        check_dirs(p.get_directives(), lay, case['toks'])
    d = asttree.first_diff(out[0], out[1])
    if d:
        raise Violation('the tree depends on the layout: %s\n%s\n-----\n%s' % (d, case['lays'][0]['text'], case['lays'][1]['text']))
    # every literal and name of the text is in the tree as often as in the text
    leaves = {}
    count_leaves(out[0], leaves)
    for s, k in zip(case['toks'], case['kinds']):
        v = s[1:-1] if k == 's' else s
        if k in ('n', 's', 'e') and not leaves.get(v):
            raise Violation('%r is not in the tree\n%s' % (s, case['lays'][0]['text']))


def count_leaves(d, out):
    if isinstance(d, tuple):
        for x in d:
            count_leaves(x, out)
    elif isinstance(d, str):
        out[d] = out.get(d, 0) + 1


def gen_nettype(g):
    mods = []
    for i in range(g.int(1, 4)):
        d = g.list(0, 2, lambda: g.choice(['none', 'wire', 'tri', 'reg']))
        mods.append([d, g.choice(['', 'wire a;', 'assign a = 1;'])])
    return dict(mods=mods, sep=g.choice([' ', '\n', ' // x\n', '/* `default_nettype none */']))


def oracle_nettype(case):
    text, want, cur = '', [], 'wire'
    for i, (ds, body) in enumerate(case['mods']):
        for d in ds:
            text += '\n`default_nettype %s\n' % d
            cur = d
        text += case['sep'] + 'module m%d;' % i + case['sep'] + body + ' endmodule' + case['sep']
        want.append(cur)
    ast = core.new_parser().parse(text)
    got = [m.default_nettype for m in ast.description.definitions]
    if got != want:
        raise Violation('default_nettype %r expected, got %r\n%s' % (want, got, text))


def nt(c):
    return len(c['toks']) >= 20 and any('\n' in l['text'] or '/' in l['text'] for l in c['lays'])


SUBS = [
    Sub('tokens', gen_trees, oracle_tokens, quick=2400, nontrivial=nt, show=lambda c: c['lays'][0]['text']),
    Sub('soup', gen_soup, oracle_tokens, quick=2400, nontrivial=nt, show=lambda c: c['lays'][0]['text']),
    Sub('trees', gen_trees, oracle_trees, quick=4000, nontrivial=nt, show=lambda c: c['lays'][0]['text']),
    Sub('nettype', gen_nettype, oracle_nettype, quick=400),
]
