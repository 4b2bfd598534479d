#!/usr/bin/env python3
"""Builds the IR reader (build/irx) from tools/irx/irx.cpp."""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'engine'))
import sa

print(sa.irx_path())
