#!/usr/bin/env python3
"""python3 check.py C01 [--case KIND INDEX]: decides one property."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from vlib import core  # noqa: E402

if __name__ == '__main__':
    os.chdir(os.path.dirname(os.path.abspath(__file__)))
    sys.exit(core.main(sys.argv[1], sys.argv[2:]))
