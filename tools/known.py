#!/usr/bin/env python3
"""Writes known_findings.json: the findings of FINDINGS plus one line per fix commit of /repo (property from FIXES)."""
import json
import os
import subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# subject of the fix commit -> property (default: the block it lies in)
FIXES = [
    ('C01', 'keep the delay in front|give real variables|read the name list|use the identifier, not the delay|accept X as first|lower indexed part|'
            'repeat signedness|take the right symbols of a unique'),
    ('C04', 'record the last line of loops|take the last line of an empty wait'),
    ('C03', 'generate indexed part|without event control|initialize variables in their declaration'),
    ('C02', 'generate the arithmetic|spell the disable|generate casez|generate always_ff|generate supply0|keep delays of cont|'
            'keep initial values of integer|separate parameters|keep tokens apart|keep the separator of a for|put delays|'
            'group a multi-name|keep the else branch|keep the items of a generate|keep the width of parameters with|'
            "keep the digit '\\?'"),
    ('C06', 'accept carriage|accept a line comment|report illegal characters|give a module the default_nettype'),
    ('C05', 'start every parse|reject scope names|match every escape'),
    ('C07', 'compare all members'),
    ('C08', 'accept a single source|preprocess source strings|fail when the preprocessor'),
    ('C12', 'bind the assigned part|call the existing function|compare both bounds|keep the values seen|select the part of a conc|'
            'bits read back|constants assigned in one branch|analyze casez|the default item of a case|compare casez items|gates drive all|terminals of gates'),
    ('C10', 'widths of one-bit|name the module of the errors|constant operators|width and value of signed|evaluates? selects of const|'
            'parts of concatenations|simplifications in the opt|keep the selected bits'),
    ('C13', 'keep nonblocking|index destinations'),
    ('C20', 'collect and rename'),
    ('C21', 'keep parallel edges'),
    ('C09', 'integer literals are reduced|conditionals and sign conv|reduce constants to their decl'),
    ('C15', 'variables declared in functions|arrays of instances|ranges of declarations in gen|supply nets without'),
    ('C19', 'classify the assignments of all|subsets include the clocks'),
    ('C16', 'signals in the walked tree'),
    ('C17', 'infer the states of comp|contradicting state cond|accept states compared with|only copy an input or each|bitwise and reduction operators in state|every loop of a state machine'),
    ('C11', 'selections at a conditional'),
    ('C23', 'code of bits of an expression'),
    ('C18', 'active conditions of signals with|assigned by the reset are no active'),
    ('C14', 'negative values are true|constants with a range|derive the constants|connect scalars'),
]
EXTRA = os.path.join(HERE, 'tools', 'fixes_extra.json')
if os.path.exists(EXTRA):
    FIXES += [tuple(x) for x in json.load(open(EXTRA))]


def main():
    import re
    log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], capture_output=True, text=True).stdout
    fixed = []
    for l in log.splitlines():
        h, s = l.split(' ', 1)
        if not s.startswith('fix:'):
            continue
        ps = [p for p, rx in FIXES if re.search(rx, s)]
        if not ps:
            raise SystemExit('no property for: ' + l)
        fixed.append('fixed: property=%s %s %s' % (ps[0], h, s[5:]))
    d = os.path.join(HERE, 'tools', 'findings')
    fs = [json.load(open(os.path.join(d, f))) for f in sorted(os.listdir(d))] if os.path.isdir(d) else []
    with open(os.path.join(HERE, 'known_findings.json'), 'w') as f:
        json.dump({'findings': fs, 'fixed': fixed}, f, indent=1)
        f.write('\n')
    print(len(fs), 'findings', len(fixed), 'fixed')


main()
