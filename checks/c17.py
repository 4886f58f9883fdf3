import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "tools"))
from vlib import *


def body(c):
    env = {"GLOG_minloglevel": "4"}
    b = c.build("asan", "uri_unit", ["uri_unit.cpp"])
    c.pmap(lambda i: unit(c, b, ["seed=%d" % (c.seed * 1000 + i), "n=%d" % c.n(4000, 40000)], timeout=800, env=env),
           range(c.n(8, 64)))


main(Check("C17", "exploration",
           "generated requests (every byte value in strings, host names, IPv4, IPv6, port lists, all "
           "cipher types) rendered and parsed back; malformed and mutated URLs compared with an "
           "independent parser: accepted ones must carry its values; all one and two byte strings for "
           "escaping; distinct = different URLs"), body)
