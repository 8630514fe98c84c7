#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vlib"))
from vcheck_run import *

simple("P03", "model_checking", "p03.cxx", 'common/*.cxx common/logging/*.cxx common/ephemeris/*.cxx utils/*.cxx'.split(),
       "all sequences of up to 2 (3) ephemerides over three systems and twelve ages (around two hours, days and a year, both signs), all orders of five (seven) among inertial samples, all satellite numbers; a state is one log, a case one run of the tool's main(); non-trivial = a log with ordinary and unusual entries",
       flags=FAST, libs=['-lfmt','-lyaml-cpp','-lstdc++fs','-lglog'], assumptions=['ages are told to a microsecond'])
