#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vlib"))
from vcheck_run import *

simple("L04", "exploration", "l04.cxx", 'common/*.cxx common/logging/*.cxx common/ephemeris/*.cxx utils/*.cxx'.split(),
       'the stream name of every key in a contiguous range and at the ends of the type, and every ordered pair of 38 look-alike keys written to and read from one log; a case is distinct by its name or key pair',
       flags=None, libs=['-lfmt', '-lyaml-cpp', '-lstdc++fs', '-lglog'], assumptions=[])
