#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vlib"))
from vcheck_run import *

simple("E01", "model_checking", "e01.cxx", 'common/ephemeris/gps.cxx common/utctime.cxx common/quantized_time.cxx common/check.cxx common/print.cxx'.split(),
       'all sequences (to a length) over nine subframes of three issues of data plus a foreign, a damaged and a short one; every field at boundary values and near them, with walking bits, and at all values if it has up to 8 (16) bits; all week/transmission/reference-time combinations around the week boundary',
       flags=SAN, libs=['-lfmt'], assumptions=['issue numbers are not reused for different contents'])
