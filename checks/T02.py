#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vlib"))
from vcheck_run import *

simple("T02", "exploration", "t02.cxx", ["common/utctime.cxx", "common/quantized_time.cxx"],
       "every GPS, Galileo and Glonass week 0..4095 x boundary times of week, every second of nine whole weeks, every day 1970..2105, and a grid of (reference, Glonass time of day); a case is distinct by its week and time of week or date",
       assumptions=["18 leap seconds throughout, as the library fixes"])
