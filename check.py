#!/usr/bin/env python3-vt
"""check.py <property> [quick|thorough]"""
import os
import sys
os.environ.setdefault('PYTHONDONTWRITEBYTECODE', '1')
sys.dont_write_bytecode = True
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sx.run import main
sys.exit(main(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else None))
