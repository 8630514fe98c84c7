#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vlib"))
from vcheck_run import *

simple("K03", "model_checking", "k03.cxx",
       "core/ekf/rtk_ekf_estimator.cxx gen/core/ekf/*.cxx common/*.cxx common/logging/*.cxx common/satellite/*.cxx common/ephemeris/*.cxx utils/*.cxx core/sat_manager.cxx".split(),
       "all sequences of arrivals up to the depth over alphabets of (kind of measurement, time) including ties, jitter below the time quantum, stale and refused ones; all orders of a "
       "mixed history; one late measurement at every place of a history longer than the buffer; a state is an estimator after one sequence, compared bit for bit with a reference "
       "that starts over from the oldest retained state after every arrival",
       flags=FAST + ["-fno-lifetime-dse", "-ffp-contract=off"], libs=["-lfmt", "-lyaml-cpp", "-lstdc++fs", "-lglog"], pre=lambda w: [ekf_gen(w, "core/ekf/rtk_ekf.yaml", "core/ekf")],
       assumptions=["process and measurement models are stand-ins that do not commute, prediction and update are the generated ones",
                    "measurements within the time quantum of the oldest retained state are applied in order of arrival, since nothing older is left to restart from",
                    "times of jitter stay within half a quantum of one another; in the window exploration times are exact"])
