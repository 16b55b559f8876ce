#!/usr/bin/env python3
"""tools/run.py PROPERTY [quick|thorough]"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vlib import engine
sys.exit(engine.main(sys.argv))
