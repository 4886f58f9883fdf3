import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "tools"))
from vlib import *
import e2e

FAST = [("b.read_timeout_millis", 2500), ("b.write_timeout_millis", 2500), ("b.connect_timeout_millis", 800),
        ("r.max_accept_retries", 30), ("s.max_retries", 4), ("s.max_transfer_retries", 2)]


def stress(c, binary, seed, cfg):
    rng = random.Random("c23-%d" % seed)
    root = "%s/%s%d" % (c.tmp, cfg, seed)
    e2e.fresh(root)
    src, dst = root + "/src", root + "/dst"
    files = e2e.gen_tree(rng, src, maxtotal=rng.choice([100000, 400000, 1500000]), kind=rng.choice([None, None, "many", "big", "deep"]))
    total = sum(map(len, files.values()))
    drop = ["b.num_ports", "report_cb", "b.progress_report_interval_millis", "s.avg_mbytes_per_sec", "async", "r.overwrite", "s.block_size_mbytes"]
    o = [x for x in e2e.rand_opts(rng) if x[0] not in drop]
    ports = rng.choice([2, 3, 4, 8, 8])
    o += [("b.num_ports", ports), ("r.overwrite", "true"), ("s.block_size_mbytes", rng.choice([-1, 0.005, 0.01, 0.0625, 1]))] + FAST
    feats = []

    def feat(name, p, *opts):
        if rng.random() < p:
            feats.append(name)
            o.extend(opts)
            return True
    feat("progress", .6, ("report_cb", 1), ("b.progress_report_interval_millis", rng.choice([1, 2, 10, 50])),
         ("b.throughput_update_interval_millis", rng.choice([1, 10, 500])))
    feat("throttle", .35, ("b.avg_mbytes_per_sec", rng.choice([3, 20, 100])), ("b.throttler_log_time_millis", rng.choice([0, 1, 50])))
    feat("perf", .4, ("b.enable_perf_stat_collection", "true"))
    feat("full", .4, ("s.full_reporting", "true"))
    feat("async", .4, ("async", 1))
    feat("extabort", .3, ("extabort", 1))
    feat("abortcheck", .4, ("b.abort_check_interval_millis", rng.choice([1, 5, 50])))
    res = feat("resume", .45, ("b.enable_download_resumption", "true"), ("recovery", "rec"),
               ("r.transfer_log_write_interval_ms", rng.choice([1, 10, 200])))
    if res:
        if feat("compact", .3, ("r.enable_transfer_log_compaction", "true")):
            pass
        elif feat("tree", .4, ("r.resume_using_dir_tree", "true"), ("r.disable_preallocation", "true")):
            pass
        feat("delete", .4, ("b.delete_extra_files", "true"))
    else:
        feat("skipwrites", .1, ("r.skip_writes", "true"))
    feat("symlinks", .2, ("s.follow_symlinks", "true"))
    feat("listed", .2)
    feat("eachdelay", .25)
    feat("accept", .2, ("r.accept_timeout_millis", 1))
    if "listed" in feats:
        with open(root + "/list", "w") as f:
            good = [k for k in files if "|" not in k and "\n" not in k and "\r" not in k]
            for k in good:
                f.write("%s|%d|%d\n" % (k, rng.choice([-1, len(files[k])]), rng.choice([0, 0, 1])))
        o.append(("list", root + "/list"))
    runs = []
    nruns = rng.choice([1, 2, 3]) if res else rng.choice([1, 1, 2])
    for i in range(nruns):
        r = []
        for _ in range(rng.choice([0, 1, 2, 4])):
            r.append(("f", "%s:%s:%s:%d:%s" % (rng.choice(["*", rng.randrange(ports)]), rng.choice(["0", "0", "1", "*"]), rng.choice("ssr"),
                                               rng.randrange(total // ports + 800), rng.choice(["rst", "fin", "refuse", "stall:300"]))))
        for _ in range(rng.choice([0, 0, 1, 2])):
            what = rng.choice(["abort", "extabort", "throttle", "throttle"])
            at = "b%d" % rng.randrange(total + 2000) if rng.random() < .7 else str(rng.randrange(60))
            r.append(("act", "%s:%s:%s" % (rng.choice("sr"), what, at)))
            r.append(("proxy", 1))
        if rng.random() < .2:
            r.append(("reps", 2))
        if rng.random() < .3:
            r += [("chunk", rng.choice([100, 1500, 9000])), ("chunk_us", rng.choice([0, 20]))]
        runs.append(r)
    for i, r in enumerate(runs):
        env = {}
        if "eachdelay" in feats:
            env = {"LD_PRELOAD": core.build_faultio(), "FIO_ROOT": root, "FIO_DELAY": "%d:%d" % rng.choice([(300, 1000), (50, 10000)])}
        if not res:
            e2e.fresh(dst)
        x = e2e.xfer(binary, [("src", src), ("dst", dst)] + o + r, env=env, timeout=170)
        rep = {"cfg": cfg, "seed": seed, "run": i, "args": [("src", src), ("dst", dst)] + o + r}
        cr = x.res.crash()
        c.add("transfers")
        if cr:
            c.violation("crash:" + cr, x.res.text[-3500:], rep)
            break
        if x.res.timed_out or not x.d:
            c.inconcl("run %d of %d: rc=%s timeout=%s" % (i, seed, x.res.rc, x.res.timed_out))
            break
        c.add("outcome_%s_%s" % (x.err("s"), x.err("r")))
        c.add("connections", len(x.d["conns"]))
        c.add("threads", 2 * ports)
        for f in feats:
            c.add("with_" + f)
        for k in r:
            if k[0] == "act":
                c.add("act_" + k[1].split(":")[1])
        for q in x.d["conns"]:
            if q[4]:
                c.add("fired_" + q[4].split(":")[0])
    c.case((tuple(feats), str(runs), ports) + e2e.okey(o), sample="%s ports=%d %s runs=%d" % (cfg, ports, feats, len(runs)))
    shutil.rmtree(root, ignore_errors=True)


def body(c):
    tsan = c.build("tsan", "xfer", ["xfer.cpp"])
    asan = c.build("asan", "xfer", ["xfer.cpp"])
    base = c.seed * 1000003
    c.pmap(lambda i: stress(c, tsan, base + i, "t"), range(c.n(90, 6000)), workers=8)
    c.pmap(lambda i: stress(c, asan, base + 50000 + i, "a"), range(c.n(60, 4000)), workers=10)


main(Check("C23", "exploration",
           "real transfers of 2 to 8 threads per end under ThreadSanitizer, and under AddressSanitizer for lifetimes, with progress reporting, "
           "throttling and its changes, aborts from outside, resumption logging, perf statistics, full reports, reconnects, "
           "delayed file calls and repeated runs in one process; distinct = different feature sets, runs and options",
           ["OpenSSL and libc are not instrumented"]), body)
