#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vlib"))
from ekfrun import *

Q = TIER == "quick"
go("K02", "gate", "every measurement type of every filter x every size of states and measurement x {inside, at, outside} the gate, and a NaN in each place an input can carry one; "
   "a state is one filter with one measurement offered to it",
   ["the gate is the chi-squared quantile with one degree of freedom less than the largest size of the measurement (at least one)"],
   [("rtk_ekf", "core/ekf/rtk_ekf.yaml"), ("example_ekf", "core/ekf/ekf_gen/example_ekf.yaml")],
   {None: (1, 1000), "rtk_ekf": (1, 3 if Q else 5), "example_ekf": (1, 3 if Q else 6)})
