#!/opt/veriftools/pyvenv/bin/python
"""check.py ID: decides one property by symbolic execution of the current /repo."""
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'engine'))
sys.dont_write_bytecode = True
import runner
sys.exit(runner.main(sys.argv[1:]))
