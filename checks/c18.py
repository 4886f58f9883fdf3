import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "tools"))
from vlib import *
import e2e

MB = 1024 * 1024


def one(c, binary, seed):
    rng = random.Random("c18-%d" % seed)
    root = "%s/e%d" % (c.tmp, seed)
    e2e.fresh(root)
    n = rng.randrange(1, 30)
    total = rng.randrange(300000, 900000)
    files = {}
    for i in range(n):
        files["f%d" % i] = rng.randbytes(total // n + rng.randrange(3))
    e2e.write_tree(root + "/src", files)
    total = sum(len(v) for v in files.values())
    side = rng.choice("srb")
    rate = rng.choice([0.5, 1, 2, 3])
    kind = rng.choice(["avg", "avg+max", "max", "bucket"])
    o = [("b.num_ports", rng.choice([1, 2, 4, 8])), ("s.block_size_mbytes", rng.choice([0.05, 1, 16])),
         ("s.buffer_size", rng.choice([4096, 65536, 262144])), ("r.buffer_size", rng.choice([4096, 65536, 262144])),
         ("b.encryption_type", rng.choice(["none", "aes128gcm"])),
         ("b.enable_perf_stat_collection", rng.choice(["true", "false"])),
         ("b.throttler_log_time_millis", rng.choice([0, 20]))]
    if kind != "max":
        o.append((side + ".avg_mbytes_per_sec", rate))
    if kind == "max" or kind == "avg+max":
        o.append((side + ".max_mbytes_per_sec", rate * rng.choice([1, 1.1, 4]) if kind != "max" else rate))
    if kind == "bucket":
        o.append((side + ".throttler_bucket_limit", rng.choice([0.01, 1])))
    need = total / (rate * MB)
    args = [("src", root + "/src"), ("dst", root + "/dst")] + o

    def once(i):
        e2e.fresh(root + "/dst")
        x = e2e.xfer(binary, args)
        rp = {"seed": seed, "args": args}
        if x.res.crash():
            return False, "!crash:" + x.res.crash(), x.res.text[-1500:], rp
        if not x.both:
            return False, "throttled-transfer-fails", x.brief(), rp
        what = "%s %s rate %s MB/s, %d bytes: sender %d ms receiver %d ms, needs %d ms" % (
            side, kind, rate, total, x.d["s_ms"], x.d["r_ms"], need * 1000)
        # the receiver reads ahead of its limiter by what was in its buffer
        if max(x.d["s_ms"], x.d["r_ms"]) / 1000 < need - .002:
            return False, "!too-fast:%s:%s" % (side, kind), what, rp
        if x.d["s_ms"] / 1000 > need * 1.5 + 4:
            return False, "too-slow:%s:%s" % (side, kind), what, rp
        c.case((seed,), sample=what)
        return True, "", what, rp
    e2e.settled(c, 3, once, "seed %d" % seed)
    shutil.rmtree(root, ignore_errors=True)


def body(c):
    b = c.build("asan", "throttle_unit", ["throttle_unit.cpp"])
    t = c.build("tsan", "throttle_unit", ["throttle_unit.cpp"])
    x = c.build("asan", "xfer", ["xfer.cpp"])
    env = {"GLOG_minloglevel": "4"}
    s = c.seed * 1000
    jobs = []
    for i in range(c.n(8, 64)):
        jobs.append((b, ["mode=sim", "seed=%d" % (s + i), "n=%d" % c.n(1500, 20000)]))
        jobs.append((b, ["mode=reg", "seed=%d" % (s + i), "n=%d" % c.n(300, 5000)]))
    for i in range(c.n(4, 32)):
        jobs.append((t, ["mode=stress", "seed=%d" % (s + i), "n=%d" % c.n(6, 40)]))
        jobs.append((b, ["mode=stress", "seed=%d" % (s + i), "n=%d" % c.n(6, 40)]))
    c.pmap(lambda j: unit(c, j[0], j[1], timeout=800, env=env), jobs)
    c.pmap(lambda i: one(c, x, c.seed * 1000003 + i), range(c.n(48, 800)), workers=16)


main(Check("C18", "exploration",
           "random rates, buckets, request limits and 1-12 simulated threads in virtual time: every emission compared "
           "with average x time, every window with bucket + peak x length, every sleep with the least that suffices; "
           "run-time rate changes, registrations, splitting; real-time stress of 2-8 threads under ASan and TSan; "
           "throttled transfers end to end not faster than the rate; distinct = different configurations/histories",
           ["the instant the limiter's clock starts is known to a few microseconds, tolerated in the bounds"]), body)
