#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vlib"))
from vcheck_run import *

simple("D01", "model_checking", "d01.cxx", 'sim/sim.cxx sim/sensors/*.cxx sim/dynamics/*.cxx sim/controllers/*.cxx common/*.cxx common/logging/*.cxx common/satellite/*.cxx common/ephemeris/*.cxx utils/*.cxx'.split(),
       'the full product of attitudes, twists, rates, positions, biases (IMU) and of origins, attitudes, twists, positions, lever arms, clocks (GNSS); every history of up to N sampling intervals at every sensor rate; every log of up to N ephemerides against every schedule of steps; every history of simulation steps from memory filled two ways; a state is (sensor, time, time since last report)',
       flags=FAST, libs=['-lfmt', '-lyaml-cpp', '-lstdc++fs', '-lglog'], assumptions=['no multipath, loss of lock or second frequency is simulated', 'the noise itself is judged only by its scale'])
