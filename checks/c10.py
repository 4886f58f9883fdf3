import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "tools"))
from vlib import *


def body(c):
    b = c.build("asan", "proto_unit", ["proto_unit.cpp"])
    env = {"GLOG_minloglevel": "4"}
    jobs = [["mode=round", "seed=%d" % (c.seed * 1000 + i), "n=%d" % c.n(12, 120)] for i in range(c.n(8, 64))]
    c.pmap(lambda a: unit(c, b, a, timeout=800, env=env), jobs)
    c.extra["versions"] = "10..34"


main(Check("C10", "exploration",
           "every message kind for every version from 10 to two past the current one with values of all "
           "magnitudes: bytes compared with an independent encoder, decoded at exact and larger lengths, "
           "encoded into every shorter buffer; all powers of two +-3 for the integers; all version pairs "
           "-3..79 x 10..69 for negotiation; distinct = different messages"), body)
