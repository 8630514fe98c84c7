#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vlib"))
from vcheck_run import *

simple("J01", "model_checking", "j01.cxx", 'core/ekf/rtk_ekf_impl.cxx gen/core/ekf/*.cxx common/*.cxx common/satellite/*.cxx common/ephemeris/*.cxx utils/*.cxx core/sat_manager.cxx'.split(),
       'the full product of attitudes (the 24 of the cube and generic ones), Earth attitudes, positions, Earth positions, lever arms, velocities and rates for point_pos; every list of up to three observations over the three systems and lists up to the capacity for obs; every size for fix_and_hold; a state is one (filter state, measurement) pair, compared with an independent evaluation of the geometry in extended precision and its forward-mode derivative',
       flags=FAST, libs=['-lfmt', '-lyaml-cpp', '-lstdc++fs'], pre=lambda w: [ekf_gen(w, "core/ekf/rtk_ekf.yaml", "core/ekf")], assumptions=['the line of sight and the Earth-rotation term are taken as fixed in the Jacobian of the Doppler', 'the angular rate handed to the measurement is the one used, uncorrected for bias'])
