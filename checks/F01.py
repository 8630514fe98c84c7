#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vlib"))
from vcheck_run import *

simple("F01", "model_checking", "f01.cxx", 'models/*.cxx common/*.cxx common/satellite/*.cxx common/ephemeris/*.cxx utils/*.cxx'.split(),
       'the full product of receivers, satellites, noise covariances (correlated ones included), attitudes, positions, velocities, lever arms, linearisation origins and the Jacobian switch: residuals against the geometry evaluated in extended precision and whitened with the factor of the covariance, Jacobians against its forward-mode derivative; a state is one factor with one point',
       flags=FAST, libs=['-lfmt', '-lyaml-cpp', '-lstdc++fs'], assumptions=['the line of sight and the Earth-rotation term are taken as fixed in the Jacobian of the Doppler', 'Earth-rotation term and atmosphere are those of the reference position', 'Doppler within 2 mm/s: the library normalises the line of sight with the range that includes the Earth-rotation term'])
