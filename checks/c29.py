import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "tools"))
from vlib import *
import e2e


def faulty(c, binary, seed):
    """Read errors and short reads in a real transfer."""
    rng = random.Random("c29-%d" % seed)
    root = "%s/e%d" % (c.tmp, seed)
    e2e.fresh(root)
    files = e2e.gen_tree(rng, root + "/src", maxtotal=600000)
    fail = rng.random() < .7
    o = [("b.num_ports", rng.choice([1, 2, 4])), ("s.block_size_mbytes", rng.choice([-1, 0.01, 0.1, 16])),
         ("s.buffer_size", rng.choice([8192, 65536])), ("s.odirect_reads", rng.choice(["true", "false"])),
         ("b.encryption_type", rng.choice(["none", "aes128gcm"])),
         ("b.read_timeout_millis", 3000), ("b.write_timeout_millis", 3000), ("r.max_accept_retries", 60)]
    env = {"LD_PRELOAD": core.build_faultio(), "FIO_ROOT": root + "/src", "FIO_TRACE": root + "/trace"}
    if fail:
        env["FIO_FAIL"] = ",".join("pread:%d:%d" % (rng.choice([1, 2, 3, 5, 10]), rng.choice([5, 13])) for _ in range(rng.choice([1, 1, 3])))
    else:
        env["FIO_SHORT"] = "%d:%d" % (rng.choice([100, 500, 900]), seed)

    def once(i):
        e2e.fresh(root + "/dst")
        if os.path.exists(root + "/trace"):
            os.unlink(root + "/trace")
        x = e2e.xfer(binary, [("src", root + "/src"), ("dst", root + "/dst")] + o, timeout=100, env=env)
        rep = {"seed": seed, "args": o, "env": env}
        fired = "fail\t" in (open(root + "/trace", errors="replace").read() if os.path.exists(root + "/trace") else "")
        if x.res.crash():
            return False, "!crash:" + x.res.crash(), x.res.text[-1500:], rep
        if not x.d:
            return False, "no-result", "rc=%s timeout=%s" % (x.res.rc, x.res.timed_out), rep
        d = e2e.diff(files, root + "/dst")
        if x.both and d:
            return False, "!ok-but-wrong", "%s %s" % (x.brief(), d[:3]), rep
        c.add("read_faults_fired", 1 if fired else 0)
        if not fired and not x.both:
            return False, "undisturbed-failed:%s/%s" % (x.err("s"), x.err("r")), x.brief(), rep
        if fired and x.ok("s") and d:
            return False, "!read-error-not-reported", x.brief(), rep
        return True, "", x.brief(), rep
    e2e.settled(c, 3, once, "seed %d" % seed)
    c.case(("e2e", seed))
    shutil.rmtree(root, ignore_errors=True)


def body(c):
    a = c.build("asan", "queue_unit", ["queue_unit.cpp"])
    x = c.build("asan", "xfer", ["xfer.cpp"])
    env = {"GLOG_minloglevel": "4"}

    def one(i):
        d = "%s/s%d" % (c.tmp, i)
        os.makedirs(d)
        e = dict(env)
        if i % 4 == 3:
            e.update({"LD_PRELOAD": core.build_faultio(), "FIO_ROOT": d, "FIO_SHORT": "300:%d" % i})
        unit(c, a, ["mode=source", "seed=%d" % (c.seed * 1000 + i), "n=%d" % c.n(3000, 10000), "dir=" + d],
             timeout=500, env=e, ctx="source")
        shutil.rmtree(d, ignore_errors=True)

    c.pmap(one, range(c.n(12, 120)))
    c.pmap(lambda i: faulty(c, x, c.seed * 100000 + i), range(c.n(80, 1500)))


main(Check("C29", "exploration",
           "byte sources over random files, ranges, buffer sizes, direct and shared descriptors, reopened and "
           "advanced, with files shrunk, removed or grown before or between reads; every byte returned compared; "
           "real transfers with injected read errors and short reads; distinct = different cases"), body)
