#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vlib"))
from vcheck_run import *

simple("F03", "model_checking", "f03.cxx", 'models/*.cxx common/*.cxx common/satellite/*.cxx common/ephemeris/*.cxx utils/*.cxx'.split(),
       'pose factor: anchors x directions x angles around every branch x moves x weights x both signs of the quaternion, the residual followed from the anchor by the matrix exponential in extended precision, Jacobian against central differences; clock factor: intervals (across seconds, zero, negative) x biases x rates x switches x weights against the formulas; a state is one factor with one point',
       flags=FAST, libs=['-lfmt', '-lyaml-cpp', '-lstdc++fs'], assumptions=['Jacobian of the pose factor up to 3.1 rad from the anchor'])
