#!/usr/bin/env python3-vt
"""check.py <property id>: exit 0 the property held, 1 VIOLATION"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from dcv import runner
if __name__ == '__main__':
    sys.stdout.reconfigure(line_buffering=True)
    sys.exit(runner.main(sys.argv[1]))
