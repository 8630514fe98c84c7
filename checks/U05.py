#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vlib"))
from vcheck_run import *

simple("U05", "model_checking", "u05.cxx", 'utils/progress_bar.cxx'.split(),
       'exhaustive: every duration of an alphabet closed under the carries of the stamp x totals x progress x widths; every sequence of calls (progress x time passed) to a depth for both constructions, five themes and three ways of giving times; a bar used again',
       flags=SAN, libs=[], assumptions=['the clock of the system is replaced; durations are limited to 400 days'])
