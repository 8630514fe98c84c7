#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vlib"))
from vcheck_run import *

simple("U03", "exploration", "u03.cxx", 'parsers/ubx/*.cxx common/*.cxx common/logging/*.cxx common/ephemeris/*.cxx utils/*.cxx'.split(),
       'all interleavings of the message streams of two or three satellites (and observation messages), all sequences of up to 3 (4) messages out of 16, reference times around the acceptance limit, every system/signal/slot, every number of measurements; a case is one byte stream turned into one log; non-trivial = something was logged',
       flags=SAN, incs=[VERIF + '/harness/stub'], libs=['-lfmt', '-lyaml-cpp', '-lstdc++fs', '-lglog'], assumptions=['the async_comm library and the wall clock are replaced by stand-ins', 'the decoders themselves are judged by E01 to E03'])
