import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "tools"))
from vlib import *
from c12 import hostile


def body(c):
    b = c.build("asan", "hostile_unit", ["hostile_unit.cpp"])
    jobs = []
    for i in range(c.n(8, 64)):
        s = "seed=%d" % (c.seed * 1000 + 100 + i)
        jobs.append((b, ["mode=names", s, "n=%d" % c.n(50, 500)]))
        jobs.append((b, ["mode=wild", s, "n=%d" % c.n(25, 400)]))
    c.pmap(lambda j: hostile(c, j[0], j[1], 1, "mode=wild" in j[1]), jobs, 12)


if __name__ == "__main__":
    main(Check("C14", "exploration",
               "a real receiver (as an unprivileged user, destination 14 directories deep in a scratch tree full of files) gets "
               "well formed and wild transfers with names from a hostile set (parents, absolute, empty or dot components, NUL, "
               "too long, odd bytes, deletions) in blocks over 1-4 connections; the whole scratch tree before and after, and "
               "the exact files an acceptable transfer must leave; distinct = different transfers",
               ["the destination directory contains no symlinks leading out of it"]), body)
