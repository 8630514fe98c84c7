#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vlib"))
from vcheck_run import *

simple("U02", "exploration", "u02.cxx", 'parsers/ubx/ubx.cxx common/print.cxx'.split(),
       'command/reception sequences up to 3 (4) over 20 commands and 4 receptions, for 5 receiver generations and 3 initial memory contents; two answers out of 8 kinds at every clock reading of the waiting window; version strings at every place, number and name length; a case is one sequence or one waiting schedule; non-trivial = bytes were sent or an answer arrived',
       flags=SAN, incs=[VERIF + '/harness/stub'], libs=['-lfmt'], assumptions=['the async_comm library is replaced by a stand-in with the same interface', 'the clock is replaced: 40 ms per reading'])
