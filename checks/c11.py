import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "tools"))
from vlib import *


def body(c):
    env = {"GLOG_minloglevel": "4"}
    bins = c.pmap(lambda n: c.build("asan", n, [n + ".cpp"]), ["proto_unit", "uri_unit"])
    jobs = []
    for i in range(c.n(7, 56)):
        jobs.append((bins[0], ["mode=hostile", "seed=%d" % (c.seed * 1000 + i), "n=%d" % c.n(25, 250)]))
    for i in range(c.n(3, 24)):
        jobs.append((bins[1], ["mode=hostile", "seed=%d" % (c.seed * 1000 + i), "n=%d" % c.n(4000, 40000)]))
    c.pmap(lambda j: unit(c, j[0], j[1], timeout=800, env=env), jobs)


main(Check("C11", "exploration",
           "decoders of every message kind for versions 0..33 on exactly sized heap blocks under "
           "ASan/UBSan: every truncation of valid messages, mutations of them, short strings over all "
           "first bytes, random bytes; URLs likewise; what is accepted must equal an independent "
           "decoder's reading; distinct = different inputs"), body)
