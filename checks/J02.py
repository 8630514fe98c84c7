#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vlib"))
from vcheck_run import *

simple("J02", "model_checking", "j02.cxx", 'core/ekf/rtk_ekf_impl.cxx gen/core/ekf/*.cxx common/*.cxx common/satellite/*.cxx common/ephemeris/*.cxx utils/*.cxx core/sat_manager.cxx'.split(),
       'the full product of attitudes (the 24 of the cube and generic ones), body velocities, rates, accelerations and biases, for several numbers of single differences: rates and Jacobians against the equations of a rigid body evaluated in extended precision with forward-mode derivatives; and whole motions of constant rate and acceleration run through the generated prediction at two step sizes; a state is one such point or motion',
       flags=FAST, libs=['-lfmt', '-lyaml-cpp', '-lstdc++fs'], pre=lambda w: [ekf_gen(w, "core/ekf/rtk_ekf.yaml", "core/ekf")], assumptions=['gravity is 9.80665 m/s2 along the third axis of the reference frame, whose rotation is neglected', 'first-order integration: after one second the error stays below a bound proportional to the step and shrinks with it'])
