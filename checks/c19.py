import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "tools"))
from vlib import *


def body(c):
    b = c.build("asan", "rc_unit", ["rc_unit.cpp"])
    t = c.build("tsan", "rc_unit", ["rc_unit.cpp"])
    env = {"GLOG_minloglevel": "4"}

    def go(j):
        i, exe, mode, n = j
        d = "%s/d%d" % (c.tmp, i)
        os.makedirs(d + "/s")
        os.makedirs(d + "/s2")
        os.makedirs(d + "/r")
        rng = random.Random(i)
        open(d + "/s/a", "wb").write(rng.randbytes(300000))
        open(d + "/s2/b", "wb").write(rng.randbytes(3000))
        unit(c, exe, ["mode=" + mode, "seed=%d" % (c.seed * 1000 + i), "n=%d" % n, "dir=" + d], timeout=600, env=env, ctx=mode)
        shutil.rmtree(d, ignore_errors=True)
    jobs = []
    for i in range(c.n(6, 48)):
        jobs.append((b, "seq", c.n(1500, 10000)))
        jobs.append((b, "conc", c.n(400, 4000)))
        jobs.append((t, "conc", c.n(200, 2000)))
        jobs.append((t if i % 2 else b, "high", c.n(24, 120)))
    c.pmap(go, [(i,) + j for i, j in enumerate(jobs)])


main(Check("C19", "exploration",
           "sequential histories of every controller call against a reference model of quotas, namespaces and "
           "registrations; histories of 2-6 threads (with live receivers in part of them) checked per identifier "
           "for linearizability, with live-object ledgers against the limits and counts compared at rest; "
           "send/receive rounds of the high-level API with failing initialisation, takeovers and stale release; "
           "distinct = different histories",
           ["a refusal for quota while others are in progress is always accepted in concurrent histories"]), body)
