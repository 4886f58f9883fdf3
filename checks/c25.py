import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "tools"))
from vlib import *


def body(c):
    b = c.build("asan", "stats_unit", ["stats_unit.cpp"])
    t = c.build("tsan", "stats_unit", ["stats_unit.cpp"])
    env = {"GLOG_minloglevel": "4"}
    s = c.seed * 1000
    jobs = []
    for i in range(c.n(6, 64)):
        jobs.append((b, ["mode=hist", "seed=%d" % (s + i), "n=%d" % c.n(3000, 40000)]))
        jobs.append((b, ["mode=perf", "seed=%d" % (s + i), "n=%d" % c.n(250, 4000)]))
    for i in range(c.n(4, 24)):
        jobs.append((b, ["mode=tl", "seed=%d" % (s + i), "n=%d" % c.n(150, 2000)]))
        jobs.append((t, ["mode=tl", "seed=%d" % (s + i + 500), "n=%d" % c.n(80, 800)]))
        jobs.append((t, ["mode=perfconc", "seed=%d" % (s + i), "n=%d" % c.n(10, 100)]))
    c.pmap(lambda j: unit(c, j[0], j[1], timeout=800, env=env), jobs)


main(Check("C25", "exploration",
           "random sequences of values around bucket bounds, zeros, negatives, offsets and 64-bit values, with random "
           "merges and resets; every returned and printed number against independent 128-bit arithmetic; thread local "
           "histograms filled by 1-5 threads (alive or exited) and read directly or by timer: every value exactly once; "
           "performance reports filled, read and merged sequentially and concurrently; distinct = different histories",
           ["values are not read from a thread local histogram while threads record into it (documented as inexact)"]),
     body)
