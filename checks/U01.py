#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vlib"))
from vcheck_run import *

simple("U01", "exploration", "u01.cxx", 'parsers/ubx/ubx.cxx common/print.cxx'.split(),
       'every byte string up to 9 (11) bytes over {B5,62,00,01,03} and up to 7 (9) after a header, every sequence of up to 3 (4) tokens out of 30 frames, damaged frames and noise, in several call divisions; all one- and two-bit damage of a frame; all payload lengths (quick: sampled grid in the middle); all class/identifier pairs; non-trivial = a stream that carries at least one message',
       flags=SAN, incs=[VERIF + '/harness/stub'], libs=['-lfmt'], assumptions=['the async_comm library is replaced by a stand-in with the same interface', 'streams in which the last byte of an intact frame would also have to open the next one are not judged'])
