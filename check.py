#!/usr/bin/env python3
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import run
from registry import CHECKS
if __name__ == '__main__':
    try: rc = run.main(sys.argv[1], CHECKS, sys.argv[2] if len(sys.argv) > 2 else None)
    except run.bd.BuildError as e: print('build failed: ' + str(e)); rc = 2
    sys.exit(rc)
