#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vlib"))
from vcheck_run import *

simple("T01", "model_checking", "t01.cxx", ["common/utctime.cxx", "common/quantized_time.cxx"],
       "BFS over sequences of time arithmetic from boundary instants; each transition on the code and on an exact 128-bit nanosecond model",
       assumptions=["instants within 2^40 s of the epoch", "seconds given as double are rounded or truncated to nanoseconds (2 ns)"])
