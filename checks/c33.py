import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "tools"))
from vlib import *


def body(c):
    b = c.build("asan", "sock_unit", ["sock_unit.cpp"])
    pre = core.build_faultio()

    def one(i):
        env = {"GLOG_minloglevel": "4"}
        k = i % 3
        if k:
            env.update({"LD_PRELOAD": pre, "FIO_ROOT": c.tmp, "FIO_SHORT": "%d:%d" % ([0, 30, 300][k], i)})
            if k == 2:
                env["FIO_EINTR"] = "30:%d" % i
        unit(c, b, ["mode=stream", "seed=%d" % (c.seed * 1000 + i), "n=%d" % c.n(80, 200)], timeout=400, env=env)

    c.pmap(one, range(c.n(16, 160)), workers=16)


main(Check("C33", "exploration",
           "byte streams of random sizes, splits and cipher settings through socket pairs and loopback TCP, "
           "with injected short and interrupted calls, slow and dripping peers, aborts, cuts; content, return "
           "codes, total timeouts and unacknowledged counts compared; distinct = different cases"), body)
