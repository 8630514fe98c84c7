#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vlib"))
from vcheck_run import *

simple("D02", "model_checking", "d02.cxx", 'sim/dynamics/*.cxx sim/controllers/*.cxx common/*.cxx utils/*.cxx'.split(),
       "every history of up to N (measurement, set point) pairs for every gain set, time step and both derivative sources; every history of up to N positions relative to the waypoints; the full product of torques, masses and geometries, and of initial and commanded speeds and turn rates; a state is the controller's memory",
       flags=FAST, libs=['-lfmt', '-lyaml-cpp', '-lstdc++fs'], assumptions=[])
