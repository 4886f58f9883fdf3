import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "tools"))
from vlib import *


def body(c):
    b = c.build("asan", "sock_unit", ["sock_unit.cpp"])
    env = {"GLOG_minloglevel": "4"}
    jobs = [["mode=crypto", "seed=%d" % (c.seed * 1000 + i), "n=%d" % c.n(60, 300)] for i in range(c.n(8, 96))]
    res = c.pmap(lambda a: unit(c, b, a, timeout=400, env=env), jobs)
    # IVs and keys must not repeat between processes either
    seen = {}
    for r, a in zip(res, jobs):
        for l in r.out.decode("latin-1").splitlines():
            if l.startswith("IV "):
                if seen.setdefault(l[3:], a[1]) != a[1]:
                    c.violation("iv-repeated-between-processes", "%s in %s and %s" % (l[3:], seen[l[3:]], a[1]))
                c.add("ivs_compared_between_processes")


main(Check("C04", "exploration",
           "encryption and decryption over random splits, in place and not, all cipher modes, against a "
           "byte-exact reference of the wire format decrypted with OpenSSL directly; keys, IVs, tags and "
           "ciphertext altered in every authenticated case; streams over socket pairs recorded and re-read "
           "by an independent reader that collects every IV used; distinct = different parameter sets"), body)
