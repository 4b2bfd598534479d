#!/usr/bin/env python3
"""check.py <PROPERTY> [--tier quick|thorough]"""
import importlib
import os
import sys

sys.path[:0] = [os.path.join(os.path.dirname(os.path.abspath(__file__)), d) for d in ('engine', 'checks')]
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
import report

if __name__ == '__main__':
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    sys.exit(report.main(pid, tier, importlib.import_module(pid.lower()).run))
