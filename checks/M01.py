#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vlib"))
from vcheck_run import *

simple("M01", "model_checking", "m01.cxx", ''.split(),
       'all words to a length over 21 operations (products with seven generators on either side, inverses, squares, copies, swaps; value and in-place forms) on two transforms kept as Quat, SO3, DQuat and SE3; all words over copies, assignments and element writes on four dual quaternions, two of them maps; vector pairs, Euler angles and matrices for the builders',
       flags=SAN, libs=[], assumptions=[])
