#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vlib"))
from vcheck_run import *

simple("S04", "exploration", "s04.cxx", 'common/*.cxx common/satellite/*.cxx common/ephemeris/*.cxx utils/*.cxx core/sat_manager.cxx'.split(),
       'grid of receivers x azimuths x elevations x times of week against the published formulas; non-trivial: distinct receiver and direction',
       flags=FAST, libs=['-lfmt', '-lyaml-cpp', '-lstdc++fs'], assumptions=['Klobuchar coefficients are the built-in ones'])
