#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vlib"))
from vcheck_run import *

simple("L01", "model_checking", "l01.cxx", 'common/*.cxx common/logging/*.cxx common/ephemeris/*.cxx utils/*.cxx'.split(),
       'all write histories up to length N over 12 symbols (3 streams x 4 time steps), each read back with every stream, with stream subsets, with maintenance callbacks and by stream, plus every amendment chain of up to 3 logs, against a queue model',
       flags=SAN, libs=['-lfmt', '-lyaml-cpp', '-lstdc++fs', '-lglog'], assumptions=['Records carry fixed payload values per record number (doubles incl. 1e-300, 1e300, negative stamps)', 'The maintenance-callback rounding to the quantized clock is not distinguished from exact due times'])
