#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decides one property on /repo's working tree."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vf import engine
if __name__ == '__main__':
    sys.exit(engine.main(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')))
