import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "tools"))
from vlib import *
import tempfile


def hostile(c, b, args, outside, crash_ok=False):
    """Runs hostile_unit as nobody, with a scratch directory of its own."""
    d = tempfile.mkdtemp(prefix="wvh-", dir="/tmp")
    if os.getuid() == 0:
        os.chown(d, 65534, 65534)
    try:
        unit(c, b, args + ["dir=" + d, "outside=%d" % outside], timeout=800, env={"GLOG_minloglevel": "4"}, crash_ok=crash_ok)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def body(c):
    b = c.build("asan", "hostile_unit", ["hostile_unit.cpp"])
    t = c.build("tsan", "hostile_unit", ["hostile_unit.cpp"])
    jobs = []
    for i in range(c.n(8, 64)):
        s = "seed=%d" % (c.seed * 1000 + i)
        jobs.append((b, ["mode=wild", s, "n=%d" % c.n(50, 500)]))
        jobs.append((b, ["mode=unauth", s, "n=%d" % c.n(40, 400)]))
        jobs.append((b, ["mode=legit", s, "n=%d" % c.n(12, 120)]))
        if i % 4 == 0:
            jobs.append((t, ["mode=wild", "seed=%d" % (c.seed * 1000 + 500 + i), "n=%d" % c.n(25, 250)]))
            jobs.append((t, ["mode=unauth", "seed=%d" % (c.seed * 1000 + 500 + i), "n=%d" % c.n(15, 150)]))
    c.pmap(lambda j: hostile(c, j[0], j[1], 0), jobs, 12)


if __name__ == "__main__":
    main(Check("C12", "exploration",
               "a real receiver (random ports, encryption, version, resumption and policies) against 1-6 connections that send "
               "random messages, well formed or with impossible numbers, damaged, cut, reordered, slow, closed or reset; under "
               "asan+ubsan and tsan; peers with and without the identifier/key; and a real sender beside unauthorized peers; "
               "outcome, directory content and duration are compared; distinct = different scripts of messages",
               ["the receiver accepts unencrypted peers that know the transfer id, also when it has a key (ServerSocket "
                "enables this always): such a peer counts as authorized"]), body)
