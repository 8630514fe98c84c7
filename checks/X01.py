#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vlib"))
from vcheck_run import *

simple("X01", "model_checking", "x01.cxx", 'utils/*.cxx common/*.cxx'.split(),
       'every pair of bounds and shape with the first N draws of the generators; every text up to a length over five characters with every separator and every set of characters to strip; every history of making, removing and writing in a small tree; a state is a drawn matrix, a text or a tree',
       flags=FAST, libs=['-lfmt', '-lyaml-cpp', '-lstdc++fs'], assumptions=['the generators start from their default seeds, so that their histories are always the same'])
