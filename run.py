#!/usr/bin/env python3-vt
"""run.py <PROPERTY-ID> [--thorough] [--sub NAME] [--replay FILE]"""
import os
import sys

if os.environ.get('PYTHONHASHSEED') != '0' or os.environ.get('PV_PY') != '1':
    env = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', PV_PY='1')
    os.execvpe('/opt/veriftools/pyvenv/bin/python3', ['/opt/veriftools/pyvenv/bin/python3', os.path.abspath(__file__)] + sys.argv[1:], env)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from pv import core
sys.exit(core.main(sys.argv[1:]))
