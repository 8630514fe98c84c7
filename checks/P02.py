#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vlib"))
from vcheck_run import *

simple("P02", "exploration", "p02.cxx", 'sim/sim.cxx sim/sensors/*.cxx sim/dynamics/*.cxx sim/controllers/*.cxx common/*.cxx common/logging/*.cxx common/satellite/*.cxx common/ephemeris/*.cxx utils/*.cxx'.split(),
       'every set of none, one, two, all but one and all keys of the configuration (triples in thorough) with two values each; all lengths, steps, rates and ephemeris logs; an interrupt in every step; a state is one log, a case one run of the main()',
       flags=FAST + ['-fno-lifetime-dse', '-ftrivial-auto-var-init=pattern'], libs=['-lfmt', '-lyaml-cpp', '-lstdc++fs', '-lglog'], assumptions=['the values of sensors are judged by D01, the motion by D02'])
