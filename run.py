#!/usr/bin/env python3-vt
"""run.py PROPERTY [--tier quick|thorough] [--only NAME...] [-v]"""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from zsym import report
sys.exit(report.main(sys.argv[1:]))
