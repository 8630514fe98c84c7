#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vlib"))
from vcheck_run import *

simple("F02", "model_checking", "f02.cxx", 'models/*.cxx common/*.cxx common/satellite/*.cxx common/ephemeris/*.cxx utils/*.cxx'.split(),
       'the full product of receivers, satellites, intervals (negative too), weights, attitudes and positions of both poses, lever arms, switches and origins: the residual against the change of the range between the two emissions evaluated in extended precision, Jacobians against its forward-mode derivative; every combination of observations and satellites that do not belong together; a state is one factor with one point',
       flags=FAST, libs=['-lfmt', '-lyaml-cpp', '-lstdc++fs'], assumptions=['the derivative of the Earth-rotation term (six millionths) is left out of the Jacobian', 'satellite positions and clocks are those for the reference position'])
