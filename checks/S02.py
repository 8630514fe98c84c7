#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vlib"))
from vcheck_run import *

simple("S02", "model_checking", "s02.cxx", 'common/*.cxx common/satellite/*.cxx common/ephemeris/*.cxx utils/*.cxx core/sat_manager.cxx'.split(),
       'all words over 7 ephemeris messages in three systems, from an empty manager and from managers filled up to and beyond their capacity, against a first-in-first-out map per system',
       flags=SAN, libs=['-lfmt', '-lyaml-cpp', '-lstdc++fs'], assumptions=['how many satellites fit is measured, and only required to be at least 24'])
