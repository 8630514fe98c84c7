#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vlib"))
from vcheck_run import *

simple("L02", "model_checking", "l02.cxx", 'common/*.cxx common/logging/*.cxx common/ephemeris/*.cxx utils/*.cxx'.split(),
       'two streams of 0..N records in three interleavings, each stream file cut at every byte or missing (all pairs of cuts for the small logs, all single cuts and all pairs of cuts at record and stamp edges for the rest), read back by callback and by stream',
       flags=SAN, libs=['-lfmt', '-lyaml-cpp', '-lstdc++fs', '-lglog'], assumptions=['The tail record whose time stamp survives is delivered with whatever bytes are left; the property claims nothing about its payload'])
