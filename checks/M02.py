#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vlib"))
from vcheck_run import *

simple("M02", "exploration", "m02.cxx", ''.split(),
       'angles around every branch and around 0, pi and 2 pi x 35 axes x 4 translations x both quaternion signs, and rotation matrices off by a rounding error, against the power series of the matrix exponential; non-trivial: distinct rotation vectors',
       flags=FAST, libs=[], assumptions=[])
