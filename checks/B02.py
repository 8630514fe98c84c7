#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vlib"))
from vcheck_run import *

simple("B02", "exploration", "b02.cxx", 'utils/crc.cxx'.split(),
       'field lengths 1..32 at every bit position 0..23 over constant, walking-one, walking-zero and all two-byte patterns; CRC over all two-byte and single-bit-flip messages; a case is one (bytes, position, length) or one message',
       flags=SAN, libs=['-lfmt'], assumptions=['fields of at most 32 bits'])
