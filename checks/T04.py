#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vlib"))
from vcheck_run import *

simple("T04", "exploration", "t04.cxx", 'common/utctime.cxx common/quantized_time.cxx'.split(),
       'exhaustive: every millisecond of seconds, every second of eight days, every day of three centuries, powers of two of seconds both ways with their neighbours and the ends of the type',
       flags=SAN, libs=['-lfmt'], assumptions=['dates are those of the proleptic Gregorian calendar'])
