#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vlib"))
from vcheck_run import *

simple("F05", "model_checking", "f05.cxx", 'models/*.cxx common/*.cxx common/satellite/*.cxx common/ephemeris/*.cxx utils/*.cxx'.split(),
       'every word, up to a length, of changing each thing a factor was built from, releasing all of it, copying and moving it, new ephemerides, linearising again, integrating, finishing and splitting, for five kinds of factor; after each the residual and Jacobians at fixed points, asked for in every combination of outputs, against a factor that was left alone; a state is a history',
       flags=SAN, libs=['-lfmt', '-lyaml-cpp', '-lstdc++fs'], assumptions=['satellites outlive the factors made with them'])
