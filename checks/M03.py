#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vlib"))
from vcheck_run import *

simple("M03", "exploration", "m03.cxx", ''.split(),
       'angles around every branch and around 0 and pi x 31 axes x 3 translations x both quaternion signs, against the power series of the Jacobians and adjoints; non-trivial: distinct rotation vectors',
       flags=FAST, libs=[], assumptions=[])
