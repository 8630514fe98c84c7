#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vlib"))
from vcheck_run import *

simple("P01", "model_checking", "p01.cxx",
       "core/ekf/rtk_ekf_estimator.cxx core/ekf/rtk_ekf_impl.cxx gen/core/ekf/*.cxx common/*.cxx common/logging/*.cxx common/satellite/*.cxx common/ephemeris/*.cxx utils/*.cxx core/sat_manager.cxx".split(),
       "all sequences of up to 4 (5) ticks over nine contents (IMU samples, epochs of one or several systems, logged late, spread over several stamps, with an unknown satellite), all configuration "
       "variants and the shipped configuration over four histories, all pairs of ephemerides out of system x age; a state is one log, a case one run of the tool's main()",
       flags=FAST + ["-fno-lifetime-dse", '-DREPO_CFG="%s/config/rtk_ekf_post_process.yaml"' % REPO], libs=["-lfmt", "-lyaml-cpp", "-lstdc++fs", "-lglog"],
       pre=lambda w: [ekf_gen(w, "core/ekf/rtk_ekf.yaml", "core/ekf")],
       assumptions=["the filter is the real one, watched through a subclass put in its place", "epochs are more than 10 ms apart; the tool stops 45 s after the start, which is left open"])
