#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vlib"))
from vcheck_run import *

simple("J03", "model_checking", "j03.cxx", 'models/imu_state.cxx common/*.cxx'.split(),
       'all sequences of 5 operations on two error states (24 operations) and 3 (4) on three (72) against plain arrays; plus and minus over attitudes x positions x directions x angles against rotation matrices in long double; RK4 over all sign patterns of a quadratic system against the method in long double; a state is one history, point or system',
       flags=SAN, libs=['-lfmt'], assumptions=['differences of more than 3.14 rad are not taken apart'])
