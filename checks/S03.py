#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vlib"))
from vcheck_run import *

simple("S03", "exploration", "s03.cxx", 'common/*.cxx common/satellite/*.cxx common/ephemeris/*.cxx utils/*.cxx core/sat_manager.cxx'.split(),
       'grid of eccentricities, anomalies, orbit shapes, reference times in the week and query times for GPS and Galileo, states and query times for Glonass, all pairs of an earlier and a later query on one state object; receivers over the Earth for the light-time equation; non-trivial: distinct satellite positions',
       flags=FAST, libs=['-lfmt', '-lyaml-cpp', '-lstdc++fs'], assumptions=["the interface documents' user algorithms are the reference; the relativistic part of the clock drift may be left out"])
