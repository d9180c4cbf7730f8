"""Independent view of Pyverilog ASTs: which fields every node class has (its
constructor parameters), and a dump to plain tuples without line numbers."""

FIELDS = {
    'Source': 'name description', 'Description': 'definitions', 'ModuleDef': 'name paramlist portlist items',
    'Paramlist': 'params', 'Portlist': 'ports', 'Port': 'name width dimensions type', 'Width': 'msb lsb',
    'Length': 'msb lsb', 'Dimensions': 'lengths', 'Identifier': 'name scope', 'Value': 'value', 'Constant': 'value',
    'IntConst': 'value', 'FloatConst': 'value', 'StringConst': 'value',
    'Ioport': 'first second', 'Parameter': 'name value width signed', 'Localparam': 'name value width signed',
    'Supply': 'name value width signed', 'Decl': 'list', 'Concat': 'list', 'LConcat': 'list', 'Repeat': 'value times',
    'Partselect': 'var msb lsb', 'Pointer': 'var ptr', 'Lvalue': 'var', 'Rvalue': 'var',
    'Cond': 'cond true_value false_value', 'Assign': 'left right ldelay rdelay', 'Always': 'sens_list statement',
    'AlwaysFF': 'sens_list statement', 'AlwaysComb': 'sens_list statement', 'AlwaysLatch': 'sens_list statement',
    'SensList': 'list', 'Sens': 'sig type', 'Substitution': 'left right ldelay rdelay',
    'BlockingSubstitution': 'left right ldelay rdelay', 'NonblockingSubstitution': 'left right ldelay rdelay',
    'IfStatement': 'cond true_statement false_statement', 'ForStatement': 'pre cond post statement',
    'WhileStatement': 'cond statement', 'CaseStatement': 'comp caselist', 'CasexStatement': 'comp caselist',
    'CasezStatement': 'comp caselist', 'UniqueCaseStatement': 'comp caselist', 'Case': 'cond statement',
    'Block': 'statements scope', 'Initial': 'statement', 'EventStatement': 'senslist', 'WaitStatement': 'cond statement',
    'ForeverStatement': 'statement', 'DelayStatement': 'delay', 'InstanceList': 'module parameterlist instances',
    'Instance': 'module name portlist parameterlist array', 'ParamArg': 'paramname argname',
    'PortArg': 'portname argname', 'Function': 'name retwidth statement', 'FunctionCall': 'name args',
    'Task': 'name statement', 'TaskCall': 'name args', 'GenerateStatement': 'items', 'SystemCall': 'syscall args',
    'IdentifierScopeLabel': 'name loop', 'IdentifierScope': 'labellist', 'Pragma': 'entry', 'PragmaEntry': 'name value',
    'Disable': 'dest', 'ParallelBlock': 'statements scope', 'SingleStatement': 'statement', 'EmbeddedCode': 'code',
}
for _c in ('Variable Input Output Inout Tri Wire Reg Integer Real Genvar').split():
    FIELDS[_c] = 'name width signed dimensions value'
for _c in ('Power Times Divide Mod Plus Minus Sll Srl Sla Sra LessThan GreaterThan LessEq GreaterEq Eq NotEq Eql NotEql '
           'And Xor Xnor Or Land Lor').split():
    FIELDS[_c] = 'left right'
for _c in 'Uplus Uminus Ulnot Unot Uand Unand Uor Unor Uxor Uxnor'.split():
    FIELDS[_c] = 'right'
FIELDS = dict((k, v.split()) for k, v in FIELDS.items())

# fields that hold a list of nodes
LISTS = set('definitions items params ports lengths list caselist statements parameterlist instances portlist args labellist'.split())
BOOLS = set(['signed'])


def is_node(x):
    return type(x).__name__ in FIELDS and hasattr(x, '__dict__')


def dump(n):
    """Nested tuples ('Class', (field, value)...) of a real AST."""
    if isinstance(n, (list, tuple)):
        return tuple(dump(x) for x in n)
    c = type(n).__name__
    if c in FIELDS and hasattr(n, '__dict__'):
        return (c,) + tuple((f, bool(getattr(n, f)) if f in BOOLS else dump(getattr(n, f, None))) for f in FIELDS[c])
    return n


def field(d, name):
    for f, v in d[1:]:
        if f == name:
            return v
    raise KeyError(name)


def flat(d):
    """Normal form of a dump: declarations of several names become single ones."""
    if not isinstance(d, tuple):
        return d
    if d and isinstance(d[0], str) and d[0] in FIELDS:
        out = [d[0]]
        for f, v in d[1:]:
            if isinstance(v, tuple) and (not v or not isinstance(v[0], str)):
                new = []
                for x in v:
                    y = flat(x)
                    if isinstance(y, tuple) and y and y[0] == 'Decl':
                        new.extend(field(y, 'list'))
                    else:
                        new.append(y)
                v = tuple(new)
            else:
                v = flat(v)
                if f in ('true_statement', 'false_statement', 'statement') and v and v[0] == 'Decl' and len(field(v, 'list')) > 1:
                    # one declaration of several names as the body of a generate construct
                    v = ('Block', ('statements', field(v, 'list')), ('scope', None))
            out.append((f, v))
        return tuple(out)
    return tuple(flat(x) for x in d)


def first_diff(a, b, path=''):
    if type(a) is not type(b):
        return '%s: %s / %s' % (path, cut(a), cut(b))
    if not isinstance(a, tuple):
        return None if a == b else '%s: %r / %r' % (path, a, b)
    isn = lambda t: t and isinstance(t[0], str) and t[0] in FIELDS
    if isn(a) and isn(b):
        if a[0] != b[0]:
            return '%s: %s / %s' % (path, cut(a), cut(b))
        for (f, x), (_, y) in zip(a[1:], b[1:]):
            r = first_diff(x, y, path + '/' + a[0] + '.' + f)
            if r:
                return r
        return None
    if isn(a) or isn(b):
        return '%s: %s / %s' % (path, cut(a), cut(b))
    for i, (x, y) in enumerate(zip(a, b)):
        r = first_diff(x, y, '%s[%d]' % (path, i))
        if r:
            return r
    if len(a) != len(b):
        return '%s: %d / %d elements: %s / %s' % (path, len(a), len(b), cut(a), cut(b))
    return None


def cut(x, n=160):
    s = repr(x)
    return s if len(s) <= n else s[:n] + '...'


def build(ast, e):
    """Real nodes from an expected tree of pv.syntax (hand-built AST)."""
    if isinstance(e, list):
        return tuple(build(ast, x) for x in e)
    if not isinstance(e, dict):
        return e
    if 'sel' in e:
        one = ast.IntConst('1')
        b, w = build(ast, e['b']), build(ast, e['w'])
        if e['sel'] == '+:':
            return ast.Minus(ast.Plus(b, w), one) if e['side'] == 'msb' else b
        return b if e['side'] == 'msb' else ast.Plus(ast.Minus(b, w), one)
    kw = dict((k, build(ast, v)) for k, v in e['a'].items())
    c = e['c']
    if c in ('Real', 'Genvar'):
        kw['width'] = ast.Width(ast.IntConst('31'), ast.IntConst('0'))
    return getattr(ast, c)(**kw)
