#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vlib"))
from vcheck_run import *

simple("E02", "model_checking", "e02.cxx", 'common/ephemeris/galileo.cxx utils/crc.cxx common/utctime.cxx common/quantized_time.cxx common/check.cxx common/print.cxx'.split(),
       'all sequences (to a length, and from every stage of a collection) over the words of two issues plus foreign, damaged, alert and short pages, pages of two even or two odd halves; every field at boundary values and near them, with walking bits, and at all values if it has up to 8 (16) bits; every 1- and 2-bit error and burst',
       flags=SAN, libs=['-lfmt'], assumptions=['ephemeris and clock reference times lie within four hours of the transmission and in one week'])
