import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "tools"))
from vlib import *


def body(c):
    b = c.build("asan", "bigram_unit", ["bigram_unit.cpp"], ["bench/Bigram.cpp"], libs=core.BENCH_LIBS)
    unit(c, b, ["seed=%d" % c.seed], timeout=600)
    if c.thorough:
        p = c.build("plain", "bigram_unit", ["bigram_unit.cpp"], ["bench/Bigram.cpp"],
                    libs=core.BENCH_LIBS, opt="-O2")
        unit(c, p, ["seed=%d" % (c.seed + 1), "full=1"], timeout=3000)
    c.extra["exhaustive"] = True


main(Check("C28", "exploration",
           "all 65536 bigrams through construction, indexing, equality, hash, printing and serialization; "
           "ordering over a sample of all ordered pairs (quick) or all 2^32 (thorough); out of range "
           "indices in forked children; distinct = different bigrams/indices"), body)
