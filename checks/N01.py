#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vlib"))
from vcheck_run import *

simple("N01", "model_checking", "n01.cxx", 'common/*.cxx'.split(),
       'the full product of attitudes, positions and constants for every pose type, every function with a known derivative, both sides and step sizes; of matrices, points and steps for vectors; a state is one combination',
       flags=FAST, libs=['-lfmt'], assumptions=[])
