#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vlib"))
from vcheck_run import *

simple("B01", "model_checking", "b01.cxx", [], "all words over 17 operations (among them pushing elements of the buffer itself) on two buffers, from every rotation and fill level of capacities 1, 2 and 3, against std::deque; elements are tracked object by object, under ASan/UBSan",
       flags=SAN)
