#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vlib"))
from vcheck_run import *

simple("S01", "model_checking", "s01.cxx", 'common/*.cxx common/satellite/*.cxx common/ephemeris/*.cxx utils/*.cxx core/sat_manager.cxx'.split(),
       'all arrival orders of ephemerides over 7 reference times up to length N (4 reference times up to N+1), for GPS, Galileo and Glonass, each followed by 72 queries, against a map from reference time to last message',
       flags=SAN, libs=['-lfmt', '-lyaml-cpp', '-lstdc++fs'], assumptions=[])
