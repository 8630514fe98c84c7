#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vlib"))
from vcheck_run import *

simple("C01", "exploration", "c01.cxx", 'common/*.cxx utils/*.cxx'.split(),
       'all shapes of up to four levels of small configuration documents with every value from a set of plain values, lists and maps in each place, all paths, fourteen value types, required or not, each set of lookups asked forwards and backwards on one configuration; non-trivial: distinct value, type and requirement',
       flags=SAN, libs=['-lfmt', '-lyaml-cpp', '-lstdc++fs'], assumptions=['yaml-cpp reads the text as YAML; a null read as a string is left open'])
