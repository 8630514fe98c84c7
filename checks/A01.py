#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vlib"))
from vcheck_run import *

simple("A01", "model_checking", "a01.cxx", 'core/solver/lambda.cxx common/check.cxx'.split(),
       'every combination of correlations, conditional variances and float values from the sets, for up to five ambiguities, and every word of integer mixings up to the depth applied to smaller sets; the result is compared with a plain enumeration of integer vectors by distance in long double; a state is one problem',
       flags=FAST, libs=['-lfmt'], assumptions=['distances within 1e-7 count as equal (ties may be broken either way)', 'covariances are symmetric'])
