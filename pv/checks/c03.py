"""C03: a regenerated design simulates like the original."""
from pv import core, programs, sim

PID = 'C03'
RULE = ('a case is one runnable program (1..3 modules with functions, processes, generate constructs, and a test bench with time '
        'control) simulated before and after parse and code generation; non-trivial if the simulation prints at least 3 lines and the '
        'program uses at least 4 kinds of constructs')
ASSUMPTIONS = ['Icarus Verilog says what a program does']


def gen(g):
    return programs.program(g)


def oracle(case):
    from pyverilog.ast_code_generator.codegen import ASTCodeGenerator
    try:
        want = sim.compile_and_run(case['text'])
    except sim.Bad as e:
        raise core.Inconclusive('iverilog rejects the generated program: %s' % e)
    new = ASTCodeGenerator().visit(core.new_parser().parse(case['text']))
    try:
        got = sim.compile_and_run(new, 'e')
    except sim.Bad as e:
        raise core.Violation('iverilog rejects the regenerated text: %s\n%s' % (e, new))
    want, got = want.splitlines(), got.splitlines()
    case['lines'] = len(want)
    if want != got:
        k = [i for i in range(max(len(want), len(got))) if want[i:i + 1] != got[i:i + 1]][0]
        raise core.Violation('line %d of the output is %r, originally %r\n%s' % (k + 1, got[k:k + 1], want[k:k + 1], new))


def nontrivial(c):
    return c.get('lines', 0) >= 3 and len(c['feat']) >= 4


SUBS = [core.Sub('program', gen, oracle, quick=1500, thorough=20000, nontrivial=nontrivial,
                 labels=lambda c: c['feat'], show=lambda c: c['text'])]
