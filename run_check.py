#!/usr/bin/env python3
"""usage: run_check.py <property id> [--tier quick|thorough]"""
import os
import sys
if 'pyvenv' not in sys.prefix and 'veriftools' not in sys.prefix:
    os.execvp('python3-vt', ['python3-vt'] + sys.argv)
os.environ.setdefault('PYTHONDONTWRITEBYTECODE', '1')
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import runner
runner.main(sys.argv[1], 'checks.' + sys.argv[1].lower(), sys.argv[2:])
