import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "tools"))
from vlib import *
import e2e

TO = [("b.read_timeout_millis", 1000), ("b.write_timeout_millis", 1000), ("r.max_accept_retries", 30)]


def judge(x, d, clean, kinds):
    """(good, key, what): key starts with ! when certain without another try."""
    cr = x.res.crash()
    if cr:
        return False, "!crash:" + cr, x.res.text[-1500:]
    if not x.d:
        return False, "no-result", "rc=%s timeout=%s" % (x.res.rc, x.res.timed_out)
    if d and x.ok("s"):
        return False, "!sender-ok-but:" + d[0].split()[0], "%s %s" % (x.brief(), d[:4])
    if d and x.ok("r"):
        return False, "!receiver-ok-but:" + d[0].split()[0], "%s %s" % (x.brief(), d[:4])
    if clean and not x.both:
        return False, "no-recovery-with-clean-port:%s/%s" % (x.err("s"), x.err("r")), "%s %s" % (x.brief(), d[:3])
    return True, "", x.brief()


def one(c, binary, seed, cfg):
    rng = random.Random("c02-%d" % seed)
    root = "%s/%s%d" % (c.tmp, cfg, seed)
    e2e.fresh(root)
    files = e2e.gen_tree(rng, root + "/src", maxtotal=1000000)
    o = e2e.rand_opts(rng)
    np = e2e.odict(o)["b.num_ports"]
    args = [("src", root + "/src"), ("dst", root + "/dst")] + o + TO
    if rng.random() < .15:
        args.append(("r.enable_download_resumption", "true"))
    e2e.fresh(root + "/dst")
    x = e2e.xfer(binary, args + [("proxy", 1)])
    if x.res.crash():
        c.violation("crash:" + x.res.crash(), x.res.text[-1500:], {"seed": seed, "args": args})
    if not x.both:
        c.inconcl("base run of %d: %s" % (seed, x.brief()))
        return
    conns = e2e.conn_bytes(x)
    used = sorted(k for k, v in conns.items() if v[0] > 300) or sorted(conns)
    for rep in range(2):
        rules, kinds = [], set()
        clean = np > 1 and rng.random() < .7
        for k in range(rng.choice([1, 1, 1, 2, 3, 5])):
            port = rng.choice(used)[0] if rng.random() < .7 else rng.randrange(np)
            if clean and port == 0:
                port = rng.randrange(1, np)
            cn = rng.choice([0, 0, 0, 1, 2])
            d = rng.choice("sssr")
            tot = conns.get((port, 0), (300, 20))[0 if d == "s" else 1]
            r = rng.random()
            if r < .35:
                pos = max(0, tot - rng.randrange(60))
            elif r < .6:
                pos = rng.randrange(600)
            else:
                pos = rng.randrange(tot + 1)
            a = rng.choice(["rst", "fin", "rst", "fin", "rst", "fin", "refuse", "stall:500", "stall:2500", "black"])
            kinds.add(a.split(":")[0])
            rules.append("%d:%d:%s:%d:%s" % (port, cn, d, pos, a))
        fired = set()

        def once(i):
            e2e.fresh(root + "/dst")
            x = e2e.xfer(binary, args + [("f", r) for r in rules], timeout=150)
            dd = e2e.diff(files, root + "/dst") if x.d else []
            if x.d:
                fired.update((p, n, f) for p, n, s, r, f in x.d["conns"] if f)
                c.add("connections", len(x.d["conns"]))
                c.add("outcome_%s_%s" % (x.err("s"), x.err("r")))
            return judge(x, dd, clean, kinds) + ({"seed": seed, "cfg": cfg, "args": args, "rules": rules},)
        e2e.settled(c, 4, once, "seed %d rules %s" % (seed, rules))
        if fired:
            for f in fired:
                c.add("fired_" + f[2].split(":")[0])
            c.case((seed, tuple(rules)), sample="%s ports=%d clean=%s %s -> fired %s" % (cfg, np, clean, rules, sorted(fired)))
        else:
            c.add("not_fired")
    shutil.rmtree(root, ignore_errors=True)


def again(c, binary, seed, cfg):
    """One connection after the other of the same port is lost, the later ones
    before anything new arrived: blocks of few files, so that the checkpoints
    are about other blocks of the same file."""
    rng = random.Random("c02a-%d" % seed)
    root = "%s/%sa%d" % (c.tmp, cfg, seed)
    e2e.fresh(root)
    files = {"f%d" % i: rng.randbytes(rng.randrange(300000, 900000)) for i in range(rng.choice([1, 1, 2, 3]))}
    e2e.write_tree(root + "/src", files)
    np = rng.choice([1, 2, 3])
    hide = ("b.num_ports", "s.block_size_mbytes", "b.encryption_type")
    o = [x for x in e2e.rand_opts(rng) if x[0] not in hide]
    o += [("b.num_ports", np), ("s.block_size_mbytes", rng.choice([0.01, 0.02, 0.0625, 0.2])),
          ("b.encryption_type", rng.choice(["none", "none", "aes128ctr", "aes128gcm"]))]
    args = [("src", root + "/src"), ("dst", root + "/dst")] + o + TO
    if rng.random() < .3:
        args += [("sproto" if rng.random() < .5 else "rproto", rng.choice([12, 15, 20, 21, 24]))]
    total = sum(map(len, files.values()))
    for rep in range(2):
        rules = []
        clean = np > 1 and rng.random() < .5
        for p in range(1 if clean else 0, np):
            rules.append("%d:0:s:%d:%s" % (p, rng.randrange(500, total // np), rng.choice(["rst", "fin"])))
            for k in range(1, rng.choice([2, 3, 3])):
                rules.append("%d:%d:%s:%d:%s" % ((p, k) + rng.choice([("s", rng.randrange(900)), ("s", rng.randrange(300)), ("s", rng.randrange(30000)),
                             ("r", rng.randrange(60))]) + (rng.choice(["rst", "fin", "stall:300"]),)))
        fired = set()

        def once(i):
            e2e.fresh(root + "/dst")
            x = e2e.xfer(binary, args + [("f", r) for r in rules], timeout=150)
            dd = e2e.diff(files, root + "/dst") if x.d else []
            if x.d:
                fired.update((p, n, f) for p, n, s, r, f in x.d["conns"] if f)
                c.add("connections", len(x.d["conns"]))
                c.add("again_%s_%s" % (x.err("s"), x.err("r")))
            return judge(x, dd, clean, None) + ({"again": 1, "seed": seed, "cfg": cfg, "args": args, "rules": rules},)
        e2e.settled(c, 4, once, "again %d rules %s" % (seed, rules))
        if len(fired) > 1:
            c.case((seed, tuple(rules)), sample="%s again ports=%d clean=%s %s -> fired %s" % (cfg, np, clean, rules, sorted(fired)))
        else:
            c.add("again_less_than_two_faults")
    shutil.rmtree(root, ignore_errors=True)


def sweep(c, binary, what, seedbase):
    """One small transfer, cut at every byte position of one connection."""
    root = "%s/sweep%s" % (c.tmp, what[0])
    e2e.fresh(root)
    rng = random.Random("c02-sweep-%s-%d" % (what, c.seed))
    files = {"a": rng.randbytes(700), "b/c": rng.randbytes(90), "e": b"", "z": rng.randbytes(300)}
    e2e.write_tree(root + "/src", files)
    name, o, ports = what
    args = [("src", root + "/src"), ("b.num_ports", ports)] + o + TO
    e2e.fresh(root + "/d0")
    x = e2e.xfer(binary, args + [("dst", root + "/d0"), ("proxy", 1)])
    if not x.both:
        c.inconcl("sweep base " + x.brief())
        return
    conns = e2e.conn_bytes(x)
    p = max(k[0] for k in conns)
    items = []
    step = c.n(5, 1)
    for d, tot in (("s", conns[(p, 0)][0]), ("r", conns[(p, 0)][1])):
        first = c.seed % step
        for pos in range(first, tot + 1, step if d == "s" else 1):
            items.append((d, pos, "rst" if (pos // step) % 2 else "fin"))

    def one(it):
        d, pos, a = it
        dst = "%s/%s%d%s" % (root, d, pos, a)
        rule = "%d:0:%s:%d:%s" % (p, d, pos, a)

        def once(i):
            e2e.fresh(dst)
            x = e2e.xfer(binary, args + [("dst", dst), ("f", rule)])
            dd = e2e.diff(files, dst) if x.d else []
            if x.d:
                c.add("outcome_%s_%s" % (x.err("s"), x.err("r")))
            # one cut of one connection is always recovered from, except around
            # the last acknowledgement on the only connection
            return judge(x, dd, ports > 1, None) + ({"sweep": name, "rule": rule, "args": args},)
        e2e.settled(c, 4, once, "sweep %s %s" % (name, rule))
        c.case(("sweep", name, d, pos, a))
        shutil.rmtree(dst, ignore_errors=True)
    c.pmap(one, items)
    c.add("sweep_positions", len(items))
    shutil.rmtree(root, ignore_errors=True)


def body(c):
    asan = c.build("asan", "xfer", ["xfer.cpp"])
    base = c.seed * 1000003
    n = c.n(110, 8000)
    c.pmap(lambda i: one(c, asan, base + i, "asan"), range(n), workers=16)
    c.pmap(lambda i: again(c, asan, base + i, "asan"), range(c.n(80, 4000)), workers=16)
    sw = [("plain1", [("b.encryption_type", "none"), ("s.enable_checksum", "true"), ("s.block_size_mbytes", 0.0003)], 1),
          ("gcm2", [("b.encryption_type", "aes128gcm"), ("s.encryption_tag_interval_bytes", 256),
                    ("s.block_size_mbytes", 0.0003)], 2)]
    if c.thorough:
        sw += [("ctr1", [("b.encryption_type", "aes128ctr"), ("s.enable_checksum", "false")], 1),
               ("none2", [("b.encryption_type", "none"), ("s.enable_checksum", "false"), ("s.block_size_mbytes", 0.0003)], 2),
               ("gcm1", [("b.encryption_type", "aes128gcm"), ("s.encryption_tag_interval_bytes", 0)], 1)]
        tsan = c.build("tsan", "xfer", ["xfer.cpp"])
        c.pmap(lambda i: one(c, tsan, base + 700000 + i, "tsan"), range(300), workers=4)
    for w in sw:
        sweep(c, asan, w, base)


main(Check("C02", "exploration",
           "a relay between real sender and receiver cuts, resets, stalls, swallows or refuses connections at byte "
           "positions learnt from a fault-free run (weighted to headers, footers and the end-of-transfer "
           "messages), 1-5 faults over several reconnections, plus sweeps over positions of a small transfer; "
           "outcome and tree are compared after each; distinct = fault schedules in which a fault really fired",
           ["a transfer with a never faulted port must fail four times to count as a failed recovery"]), body)
