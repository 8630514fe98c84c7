#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vlib"))
from vcheck_run import *

simple("E03", "model_checking", "e03.cxx", 'common/ephemeris/glonass.cxx utils/crc.cxx common/utctime.cxx common/quantized_time.cxx common/check.cxx common/print.cxx'.split(),
       'all sequences (to a length, and from every stage of a collection) over the strings of two superframes plus unrelated, damaged and short ones; every field at boundary values and near them, with walking bits, and at all values if it has up to 8 (16) bits; dates over the four-year cycle; every 1- and 2-bit error',
       flags=SAN, libs=['-lfmt'], assumptions=['four-year intervals up to 2063', 'strings of one superframe carry one ephemeris'])
