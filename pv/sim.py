"""Running designs on Icarus Verilog, the reference for what a design does."""
import os
import re
import subprocess

from pv import core


class Bad(Exception):
    """iverilog rejects the text."""


def compile_and_run(text, name='d', timeout=5):
    d = core.scratch()
    src, exe = os.path.join(d, name + '.v'), os.path.join(d, name + '.vvp')
    with open(src, 'w') as f:
        f.write(text)
    if os.path.exists(exe):
        os.remove(exe)
    try:
        r = subprocess.run(['iverilog', '-g2005-sv', '-o', exe, src], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        if r.returncode != 0 or not os.path.exists(exe):
            raise Bad(r.stdout.decode(errors='replace')[:2000])
        r = subprocess.run(['vvp', '-n', exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise core.Inconclusive('simulation timeout')
    return r.stdout.decode(errors='replace')


ALWAYS = re.compile(r'always\s+@(\*|\s*\(\s*\*\s*\))\s*(begin(?:\s*:\s*\w+)?|[^;]*;)')


def started(text, tb='pvtb'):
    """The design with combinational blocks that also run when pvtb.go changes,
    so that they run even if nothing they read ever changes."""
    def f(m):
        if m.group(2).startswith('begin'):
            return 'always @* %s if (%s.go) ;' % (m.group(2), tb)
        return 'always @* begin if (%s.go) ; %s end' % (tb, m.group(2))
    return ALWAYS.sub(f, text)


def table(out):
    """Lines '@ a b c' of binary numbers -> list of lists (None: unknown bits)."""
    rows = []
    for l in out.splitlines():
        if l.startswith('@'):
            rows.append([int(x, 2) if set(x) <= set('01') else None for x in l[1:].split()])
    return rows


def lit(v, w):
    return "%d'b%s" % (w, format(v, '0%db' % w))
