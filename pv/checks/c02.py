"""C02: generated Verilog parses back to the same AST."""
from pv import asttree, core, syntax
from pv.core import Sub, Violation
from pv.checks import c01

PID = 'C02'
RULE = ('Source texts of the full C01 subset (parsed to a tree), and trees built by hand from the node classes; each is '
        'printed by the code generator and parsed again, and all attributes of both trees are compared.  Non-trivial: '
        'distinct case with at least 25 tokens and at least 3 different constructs.')
ASSUMPTIONS = ['the fields listed in pv/asttree.py are all that a node says besides line numbers']


def unblock(d):
    """Dump without the unnamed blocks around single statements."""
    if not isinstance(d, tuple):
        return d
    if d and d[0] == 'Block' and asttree.field(d, 'scope') is None and len(asttree.field(d, 'statements')) == 1:
        return unblock(asttree.field(d, 'statements')[0])
    return tuple(unblock(x) for x in d)


def drop_blocks(node):
    """Hand-built trees need no block around a conditional inside a conditional."""
    if isinstance(node, (list, tuple)):
        for x in node:
            drop_blocks(x)
        return
    if not asttree.is_node(node):
        return
    for f in asttree.FIELDS[type(node).__name__]:
        drop_blocks(getattr(node, f, None))
    if type(node).__name__ in ('IfStatement', 'ForStatement', 'WhileStatement', 'ForeverStatement'):
        for f in ('true_statement', 'statement'):
            b = getattr(node, f, None)
            if type(b).__name__ == 'Block' and b.scope is None and len(b.statements) == 1:
                setattr(node, f, b.statements[0])


def roundtrip(ast, what, norm=lambda d: d):
    from pyverilog.ast_code_generator.codegen import ASTCodeGenerator
    before = norm(asttree.flat(asttree.dump(ast)))
    text = ASTCodeGenerator().visit(ast)
    if norm(asttree.flat(asttree.dump(ast))) != before:
        raise Violation('code generation changed its input\n' + what)
    try:
        again = core.new_parser().parse(text)
    except Exception as e:
        raise Violation('%s: generated text is rejected: %s\n--- generated\n%s\n--- from\n%s' % (
            type(e).__name__, e, text, what))
    d = asttree.first_diff(before, norm(asttree.flat(asttree.dump(again))))
    if d:
        raise Violation('tree changed at %s\n--- generated\n%s\n--- from\n%s' % (d, text, what))


def oracle_text(case):
    roundtrip(core.new_parser().parse(case['text']), case['text'])


def oracle_hand(case):
    import pyverilog.vparser.ast as vast
    roundtrip(asttree.build(vast, case['exp']), case['text'])


def oracle_hand_if(case):
    import pyverilog.vparser.ast as vast
    t = asttree.build(vast, case['exp'])
    drop_blocks(t)
    roundtrip(t, case['text'], unblock)


def oracle_hand_expr(case):
    import pyverilog.vparser.ast as vast
    e = asttree.build(vast, case['exp'])
    m = vast.ModuleDef('m', vast.Paramlist(()), vast.Portlist(()), (vast.Assign(vast.Lvalue(vast.Identifier('y')), vast.Rvalue(e)),))
    roundtrip(vast.Source('', vast.Description((m,))), case['text'])


NT = lambda c: c['n'] >= 25 and len(c['feat']) >= 3
SUBS = [
    Sub('source', c01.gen_source, oracle_text, quick=2400, nontrivial=NT, labels=lambda c: c['feat'], show=lambda c: c['text']),
    Sub('procs', c01.gen_procs, oracle_text, quick=2400, nontrivial=NT, labels=lambda c: c['feat'], show=lambda c: c['text']),
    Sub('expr', c01.gen_expr, oracle_text, quick=2400, nontrivial=lambda c: c['n'] >= 20, labels=lambda c: c['feat'],
        show=lambda c: c['text']),
    Sub('hand', c01.gen_procs, oracle_hand, quick=1200, nontrivial=NT, labels=lambda c: c['feat'], show=lambda c: c['text']),
    Sub('hand_if', c01.gen_procs, oracle_hand_if, quick=1200, nontrivial=NT, labels=lambda c: c['feat'], show=lambda c: c['text']),
    Sub('hand_expr', c01.gen_expr, oracle_hand_expr, quick=1200, nontrivial=lambda c: c['n'] >= 20, labels=lambda c: c['feat'],
        show=lambda c: c['text']),
]
