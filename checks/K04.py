#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vlib"))
from vcheck_run import *

simple("K04", "model_checking", "k04.cxx",
       "core/ekf/rtk_ekf_estimator.cxx gen/core/ekf/*.cxx common/*.cxx common/logging/*.cxx common/satellite/*.cxx common/ephemeris/*.cxx utils/*.cxx core/sat_manager.cxx".split(),
       "all sequences of distinct arrivals up to the depth over three kinds of measurement and IMU samples at three times, two of them within the time quantum, and bundles of 0 to 30 observations, for 0, 1, 3 and 30 ambiguities; a state is a sequence, its log "
       "read back and compared with the residuals of the same measurements applied in order of time",
       flags=FAST + ["-fno-lifetime-dse", "-ffp-contract=off"], libs=["-lfmt", "-lyaml-cpp", "-lstdc++fs", "-lglog"], pre=lambda w: [ekf_gen(w, "core/ekf/rtk_ekf.yaml", "core/ekf")],
       assumptions=["process and measurement models are stand-ins, prediction and update are the generated ones",
                    "a measurement that a late one makes the estimator apply again is logged again; only the last record of it counts"])
