#!/opt/venv/bin/python
"""run.py <property id> [--tier quick|thorough] [--seed N] [--replay FILE]"""
import os, sys, importlib
if os.environ.get('PYTHONHASHSEED') != '0' or not sys.flags.dont_write_bytecode:
    os.environ['PYTHONHASHSEED'] = '0'
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    os.execv('/opt/venv/bin/python', ['/opt/venv/bin/python', '-B'] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import common
if __name__ == '__main__':
    mod = importlib.import_module('checks.' + sys.argv[1].lower())
    sys.exit(common.main(mod.Check, sys.argv[2:]))
