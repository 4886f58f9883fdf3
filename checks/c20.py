import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "tools"))
from vlib import *


def body(c):
    b = c.build("asan", "tc_unit", ["tc_unit.cpp"])
    t = c.build("tsan", "tc_unit", ["tc_unit.cpp"])
    env = {"GLOG_minloglevel": "4"}
    jobs = []
    for i in range(c.n(6, 48)):
        for exe, f in ((b, 3), (t, 1)):
            jobs.append((exe, ["mode=rounds", "seed=%d" % (c.seed * 1000 + i), "n=%d" % (c.n(250, 3000) * f)]))
            jobs.append((exe, ["mode=misc", "seed=%d" % (c.seed * 1000 + i), "n=%d" % (c.n(100, 1000) * f)]))
    c.pmap(lambda j: unit(c, j[0], j[1], timeout=600, env=env, ctx=j[1][0]), jobs, workers=12)


main(Check("C20", "exploration",
           "1-10 threads with random delays through several rounds of start section, barriers (threads dropping out at "
           "random ones), funnels (failing several times, finite and endless waits), end section and reset; state "
           "queries against a model; condition variables in a producer/consumer and timed waits ended by abort or "
           "notification; under ASan/UBSan and TSan; distinct = different rounds"), body)
