#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vlib"))
from vcheck_run import *

simple("T03", "exploration", "t03.cxx", ["common/utctime.cxx", "common/quantized_time.cxx"],
       "every nanosecond offset around the resolution boundary (thorough: every offset within three resolutions) from boundary instants; a case is one (instant, offset)",
       assumptions=["at an offset of exactly half the resolution either verdict is accepted, as long as all comparisons agree"])
