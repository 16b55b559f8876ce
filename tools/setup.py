#!/usr/bin/env python3
"""Builds the exporter and checks that the tree can be analysed."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vlib import export
r = export.export()
print('facts exported in %.1f s' % r['seconds'])
