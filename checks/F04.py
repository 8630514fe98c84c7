#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vlib"))
from vcheck_run import *

simple("F04", "model_checking", "f04_graph.cxx", 'common/*.cxx core/factor_graph.cxx'.split(),
       'exhaustive: every kind of factor x every choice of states (aliases included) x every single write through either view; all sequences of attachments to a depth; every set of options of a new graph x values x times',
       flags=SAN, libs=['-lfmt', '-lyaml-cpp', '-lstdc++fs'], assumptions=[])
