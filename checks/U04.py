#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vlib"))
from vcheck_run import *

simple("U04", "exploration", "u04.cxx", 'parsers/ubx/ubx.cxx common/print.cxx'.split(),
       'every message the driver names a structure for, whole and with every number of repeated blocks, over three backgrounds, with every byte of it replaced by every value (13 values in messages longer than 100 bytes; thorough: all); every named message, key, value and flag; all satellite and signal numbers; non-trivial = a message or name with a meaning',
       flags=FAST, incs=[VERIF + '/harness/stub'], libs=['-lfmt'], assumptions=['the async_comm library is replaced by a stand-in with the same interface', 'the reference tables are written from the u-blox interface description as the authors know it'])
