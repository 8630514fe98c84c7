#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vlib"))
from vcheck_run import *

simple("W01", "exploration", "w01.cxx", 'common/*.cxx utils/wgs84.cxx'.split(),
       'grid of latitudes (poles and equator included) x longitudes x altitudes x local offsets; non-trivial: distinct points',
       flags=FAST, libs=['-lfmt', '-lyaml-cpp', '-lstdc++fs'], assumptions=['points within 11 km below the surface to geostationary height'])
