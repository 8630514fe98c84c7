#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vlib"))
from ekfrun import *

Q = TIER == "quick"
go("K01", "steps", "all sequences of predictions and updates up to the depth, for every size of the variable states and measurements, on generated filters; "
   "a state is one filter after one sequence, compared block by block with a dense reference filter",
   ["numerical values of jacobians, noises and residuals are pseudo-random per sequence; the choice of operation, time step and sizes is exhaustive",
    "the reference filter is the dense form of the documented equations with a second order transition matrix"],
   [("rtk_ekf", "core/ekf/rtk_ekf.yaml"), ("example_ekf", "core/ekf/ekf_gen/example_ekf.yaml")],
   {None: (3, 1000) if Q else (4, 1000), "rtk_ekf": (1, 4) if Q else (2, 5), "example_ekf": (1, 3) if Q else (2, 6)})
