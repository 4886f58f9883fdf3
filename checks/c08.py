import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "tools"))
from vlib import *
import e2e


def moving(c, binary, seed):
    """Files are truncated or removed while a throttled transfer runs."""
    rng = random.Random("c08-%d" % seed)
    root = "%s/m%d" % (c.tmp, seed)
    e2e.fresh(root)
    os.makedirs(root + "/src")
    files = {"f%d" % i: rng.randbytes(rng.choice([0, 100, 30000, 150000, 400000])) for i in range(rng.randint(1, 8))}
    o = [("b.num_ports", rng.choice([1, 2, 4])), ("s.block_size_mbytes", rng.choice([-1, 0.05, 16])),
         ("s.buffer_size", rng.choice([8192, 65536])), ("s.odirect_reads", rng.choice(["true", "false"])),
         ("b.encryption_type", rng.choice(["none", "aes128gcm"])), ("s.avg_mbytes_per_sec", rng.choice([1, 3, 8])),
         ("s.open_files_during_discovery", rng.choice([0, -1, 2])),
         ("b.read_timeout_millis", 3000), ("b.write_timeout_millis", 3000), ("r.max_accept_retries", 60)]
    victim = rng.choice(sorted(files))
    act = rng.choice(["truncate", "truncate", "remove", "dir"])
    when = rng.uniform(0, .6)

    def once(i):
        e2e.fresh(root + "/dst")
        e2e.fresh(root + "/src")
        e2e.write_tree(root + "/src", files)
        to = rng.randrange(len(files[victim]) + 1)

        def mut():
            p = root + "/src/" + victim
            try:
                if act == "truncate":
                    os.truncate(p, to)
                else:
                    os.unlink(p)
                    if act == "dir":
                        os.mkdir(p)
            except OSError:
                pass
        tm = threading.Timer(when, mut)
        tm.start()
        x = e2e.xfer(binary, [("src", root + "/src"), ("dst", root + "/dst")] + o, timeout=100)
        tm.cancel()
        tm.join()
        rep = {"seed": seed, "args": o, "victim": victim, "act": act, "when": when}
        if x.res.crash():
            return False, "!crash:" + x.res.crash(), x.res.text[-1500:], rep
        if not x.d:
            return False, "no-result", "rc=%s timeout=%s" % (x.res.rc, x.res.timed_out), rep
        if not x.ok("s"):
            c.add("moving_failed")
            return True, "", x.brief(), rep
        c.add("moving_ok")
        # discovered before, or after the change
        alts = [files[victim]] + ([files[victim][:to]] if act == "truncate" else [None])
        got = e2e.read_tree(root + "/dst")
        got = got[0] if isinstance(got, tuple) else got
        bad = []
        for n, d in files.items():
            g = got.get(n)
            if n == victim:
                if g not in alts:
                    bad.append("%s is neither its old nor its new content" % n)
            elif g != d:
                bad.append("%s differs" % n)
        if bad:
            return False, "!ok-but-wrong:moving", "%s %s" % (x.brief(), bad[:3]), rep
        return True, "", x.brief(), rep
    e2e.settled(c, 3, once, "moving %d" % seed)
    c.case(("moving", seed))
    shutil.rmtree(root, ignore_errors=True)


def body(c):
    a = c.build("asan", "queue_unit", ["queue_unit.cpp"])
    x = c.build("asan", "xfer", ["xfer.cpp"])
    env = {"GLOG_minloglevel": "4"}

    def one(i):
        d = "%s/w%d" % (c.tmp, i)
        os.makedirs(d)
        unit(c, a, ["mode=walk", "seed=%d" % (c.seed * 1000 + i), "n=%d" % c.n(800, 5000), "dir=" + d],
             timeout=500, env=env, ctx="walk")
        shutil.rmtree(d, ignore_errors=True)

    c.pmap(one, range(c.n(12, 160)))
    c.pmap(lambda i: moving(c, x, c.seed * 100000 + i), range(c.n(48, 800)), workers=12)


main(Check("C08", "exploration",
           "random trees with odd and long names, deep directories, fifos, symbolic links and cycles, walked with "
           "include, exclude and prune patterns and injected lstat, open and opendir failures; the files offered "
           "compared with an independent walk; real transfers of files truncated or removed meanwhile; distinct = "
           "different trees and settings"), body)
