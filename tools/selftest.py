#!/usr/bin/env python3
"""setup_cmd: nothing to build; only see that what the checks need is there"""
import os, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
from vlib import common
common.import_amara()
assert sys.version_info >= (3, 12), 'sys.monitoring needed'
os.makedirs(common.EVIDENCE, exist_ok=True)
print('ok')
