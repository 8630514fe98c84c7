#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vlib"))
from vcheck_run import *

simple("I01", "model_checking", "i01.cxx", 'models/*.cxx common/*.cxx common/satellite/*.cxx common/ephemeris/*.cxx utils/*.cxx'.split(),
       'the full product of attitudes, rates, accelerations, velocities and biases: end state against the exact motion, factor residual and Jacobians against integrating anew and numerical derivatives; and all spacings of samples over {quantum, 1.3 ms, 10 ms} up to the depth with every split time of a grid that includes both sides of every sample, and pairs of them; a state is one motion or one split history',
       flags=FAST, libs=['-lfmt', '-lyaml-cpp', '-lstdc++fs'], assumptions=['first-order integration: bounds proportional to the step', 'a split time at least half a quantum inside the interval', 'a split within half a quantum of a sample may be moved to it'])
