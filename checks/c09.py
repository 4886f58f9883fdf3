import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "tools"))
from vlib import *


def body(c):
    a = c.build("asan", "queue_unit", ["queue_unit.cpp"])
    t = c.build("tsan", "queue_unit", ["queue_unit.cpp"])
    env = {"GLOG_minloglevel": "4"}

    def one(j):
        b, mode, seed, n = j
        d = "%s/%s%d%s" % (c.tmp, mode, seed, "t" if b is t else "")
        os.makedirs(d)
        unit(c, b, ["mode=" + mode, "seed=%d" % seed, "n=%d" % n, "dir=" + d], timeout=500, env=env, ctx=mode)
        shutil.rmtree(d, ignore_errors=True)

    s = c.seed * 1000
    k = c.n(8, 80)
    jobs = [(a, "blocks", s + i, c.n(500, 1500)) for i in range(k)]
    jobs += [(a, "conc", s + 100 + i, c.n(250, 800)) for i in range(k)]
    jobs += [(a, "history", s + 200 + i, c.n(500, 1500)) for i in range(k)]
    jobs += [(t, "conc", s + 300 + i, c.n(80, 300)) for i in range(k)]
    c.pmap(one, jobs)


main(Check("C09", "exploration",
           "random sets of files, block sizes and previously received chunks put through the queue by one to "
           "eight threads that consume or return blocks; every handed-out block compared with a reference "
           "partition, exactly once plus once per return, in the documented order (one thread); histories with "
           "simulated connection faults, partial blocks and lost threads checked for exactly-once bytes; "
           "distinct = different cases"), body)
