#!/usr/bin/env python3-vt
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from cxv import runner
if __name__ == '__main__':
    if sys.argv[1] == 'setup':
        runner.FR.ensure_plugin(); print('ready'); sys.exit(0)
    sys.exit(runner.run(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else None))
