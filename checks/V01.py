#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vlib"))
from vcheck_run import *

LEVELS = ["DEBUG", "INFO", "WARN", "ERROR", "FATAL"]


def fn(work, t0):
    res = Result()
    exes = []

    def build(l):
        w = os.path.join(work, l); os.makedirs(w)
        b = Builder(w, ["-O1", "-g0", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"], [])
        d = [f"-DLOG_LEVEL=LoggingLevel::{l}", f"-DVH_LEVEL={l}"]
        objs = b.compile([VERIF + "/harness/v01.cxx", REPO + "/common/check.cxx", REPO + "/common/print.cxx"], extra=d)
        b.link(w + "/h", objs[:1], objs[1:], ["-lfmt"])
        return l, w + "/h"
    for l, exe in map(build, LEVELS):
        run_shards(res, exe, work, tag=l)
    return conclude("V01", "model_checking", res,
                    "for each of the five levels the library can be built for: every pair of messages of five functions, three forms and twelve texts; check and weak_check with every text; every word of four operations (twelve kinds) on two results, for five types; every outcome of chains of three fallible steps; every order of items of a collection",
                    t0, ["Colours (ANSI sequences) are ignored", "RETURN_* macros are used as statements inside functions that return Error or ErrorResult"])


main(fn)
