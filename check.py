#!/usr/bin/env python3-vt
"""usage: check.py C01 [quick|thorough]   exit 0 held, 1 violation, 2 no verdict"""
import os
import sys
sys.set_int_max_str_digits(0)
sys.setrecursionlimit(20000)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vc import driver
if __name__ == '__main__':
    tier = (sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick'))
    sys.exit(driver.main(sys.argv[1], tier, int(os.environ.get('VERIF_SEED', '1'))))
