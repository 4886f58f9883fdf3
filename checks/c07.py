import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "tools"))
from vlib import *


def body(c):
    b = c.build("asan", "log_unit", ["log_unit.cpp"])
    t = c.build("tsan", "log_unit", ["log_unit.cpp"])
    env = {"GLOG_minloglevel": "4", "TZ": "UTC"}
    s = c.seed * 1000
    jobs = []
    for i in range(c.n(8, 64)):
        jobs.append((b, ["mode=parse", "seed=%d" % (s + i), "n=%d" % c.n(2500, 30000)]))
    for i in range(c.n(6, 32)):
        jobs.append((b, ["mode=session", "seed=%d" % (s + i), "n=%d" % c.n(500, 6000)]))
        jobs.append((b, ["mode=full", "seed=%d" % (s + i), "n=%d" % c.n(500, 6000)]))
    for i in range(c.n(2, 8)):
        jobs.append((t, ["mode=session", "seed=%d" % (s + i + 500), "n=%d" % c.n(150, 2000)]))

    def one(k):
        d = os.path.join(c.tmp, "log%d" % k)
        os.makedirs(d)
        unit(c, jobs[k][0], jobs[k][1] + ["dir=" + d], timeout=800, env=env)
        shutil.rmtree(d, ignore_errors=True)
    c.pmap(one, list(range(len(jobs))))


main(Check("C07", "exploration",
           "logs of every entry kind, valid and invalid, over files present, missing, shrunk and grown, then bits flipped, "
           "entries cut, repeated, reordered, padded, and every truncation of small logs: the parser's answer, what it leaves "
           "of the log and what it prints, against an independent reader of the format; several sessions through the log "
           "manager with torn writes, vanished and returned files, other senders, compaction, invalidation and full disks: "
           "what the next session gets is what was told; distinct = different logs and session histories",
           ["a log whose old entries became inconsistent with the disk may be refused (start over), never trusted"]),
     body)
