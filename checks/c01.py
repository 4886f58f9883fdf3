import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "tools"))
from vlib import *
import e2e


def special(rng, o, root, files):
    """Further arguments, and files an explicit list selects (None = all)."""
    extra, want, env = [], None, {}
    k = rng.random()
    if k < .25:
        extra += [("chunk", rng.choice([1, 7, 100, 255, 256, 257, 1000, 4096, 16384])), ("chunk_us", rng.choice([0, 0, 50]))]
        tot = sum(map(len, files.values()))
        if extra[0][1] < 100 and tot > 60000:
            extra = [("chunk", 3000)]
    elif k < .35:
        names = sorted(n for n in files if "\n" not in n and "|" not in n)
        if names:
            sel = rng.sample(names, rng.randrange(1, len(names) + 1))
            with open(root + "/list", "w", encoding="utf-8", errors="surrogateescape") as f:
                for n in sel:
                    f.write("%s|%d|%d\n" % (n, rng.choice([-1, len(files[n])]), rng.randrange(2)))
            extra.append(("list", root + "/list"))
            want = {n: files[n] for n in sel}
    elif k < .42:
        extra.append(("b.option_type", "disk"))
    elif k < .5:
        extra += [("r.enable_download_resumption", "true"), ("s.enable_download_resumption", "true")]
    elif k < .56 and not e2e.odict(o).get("r.fsync"):
        extra += [("r.keep_transfer_log", "true"), ("r.enable_download_resumption", "true")]
    elif k < .62:
        env = {"LD_PRELOAD": core.build_faultio(), "FIO_ROOT": root,
               "FIO_DELAY": "%d:%d" % (rng.choice([20, 200]), rng.choice([300, 3000]))}
    elif k < .7 and "s.odirect_reads" not in e2e.odict(o):
        env = {"LD_PRELOAD": core.build_faultio(), "FIO_ROOT": root,
               "FIO_SHORT": "%d:%d" % (rng.choice([20, 300]), rng.randrange(1 << 20))}
        if rng.random() < .5:
            env["FIO_EINTR"] = "20:%d" % rng.randrange(1000)
    elif k < .75:
        extra += [("delay_start", rng.choice([100, 400]))]
    return extra, want, env


def one(c, binary, seed, cfg):
    rng = random.Random("c01-%d" % seed)
    root = "%s/%s%d" % (c.tmp, cfg, seed)
    e2e.fresh(root)
    files = e2e.gen_tree(rng, root + "/src", maxtotal=3000000 if cfg == "plain" else 1200000)
    o = e2e.rand_opts(rng)
    extra, want, env = special(rng, o, root, files)
    if cfg == "tsan":
        env = {}
    args = [("src", root + "/src"), ("dst", root + "/dst")] + o + extra
    sel = files if want is None else want

    def once(i):
        e2e.fresh(root + "/dst")
        more = [("b.read_timeout_millis", 20000), ("b.write_timeout_millis", 20000),
                ("r.accept_window_millis", 20000)] if i else []
        x = e2e.xfer(binary, args + more, timeout=150, env=env)
        d = e2e.diff(sel, root + "/dst") if x.d else ["no result"]
        rep = {"cfg": cfg, "seed": seed, "args": args, "env": env}
        cr = x.res.crash()
        if cr:
            return False, "!crash:" + cr, x.res.text[-1500:], rep
        if x.both and not d:
            return True, "", x.brief(), rep
        if x.both:
            return False, "!ok-but-wrong:" + d[0].split()[0], "%s %s" % (x.brief(), d[:4]), rep
        if not x.d:
            return False, "no-result", "rc=%s timeout=%s %s" % (x.res.rc, x.res.timed_out, x.res.text[-800:]), rep
        fail = "undisturbed-failed:%s/%s" % (x.err("s"), x.err("r"))
        return False, fail, "%s %s %s" % (x.brief(), d[:3], x.res.text[-600:]), rep
    ok = e2e.settled(c, 4, once, "seed %d" % seed)
    c.case(e2e.okey(o + extra) + (seed,), sample="%s: %d files, %d bytes, %s %s" % (
        cfg, len(sel), sum(map(len, sel.values())), e2e.odict(o + extra), env and {k: v for k, v in env.items() if k != "LD_PRELOAD"}))
    c.add("files_compared", len(sel))
    c.add("bytes_compared", sum(map(len, sel.values())))
    c.add("runs_" + cfg)
    shutil.rmtree(root, ignore_errors=True)


def huge(c, binary, size, enc, ports):
    """A file beyond 2 GB: marks at places around every power of two and block edge."""
    root = c.tmp + "/huge%s%d" % (enc, ports)
    e2e.fresh(root)
    os.makedirs(root + "/src")
    rng = random.Random("huge%d" % c.seed)
    marks = {}
    with open(root + "/src/big", "wb") as f:
        f.truncate(size)
        pos = [0, size - 9] + [(1 << k) + d for k in range(16, 33) for d in (-9, 0, 9)] + \
              [16 * 1048576 * k + d for k in range(1, size // (16 * 1048576)) for d in (-9, 0)]
        for p in pos:
            if p + 8 <= size:
                marks[p] = rng.randbytes(8)
                f.seek(p)
                f.write(marks[p])
    def once(i):
        e2e.fresh(root + "/dst")
        x = e2e.xfer(binary, [("src", root + "/src"), ("dst", root + "/dst"), ("b.num_ports", ports),
                              ("b.encryption_type", enc), ("s.buffer_size", 1 << 20), ("r.buffer_size", 1 << 20),
                              ("b.read_timeout_millis", 30000), ("b.write_timeout_millis", 30000),
                              ("r.fsync", "false")], timeout=300)
        rep = {"size": size}
        if x.res.crash():
            return False, "!crash:" + x.res.crash(), x.res.text[-1500:], rep
        if not x.both:
            return False, "undisturbed-failed:huge", x.brief(), rep
        # everything not zero on either side must agree, compared by extents
        bad = None
        if os.path.getsize(root + "/dst/big") != size:
            bad = "size %d" % os.path.getsize(root + "/dst/big")
        else:
            with open(root + "/src/big", "rb") as a, open(root + "/dst/big", "rb") as b:
                off = 0
                while off < size:
                    u, v = a.read(1 << 24), b.read(1 << 24)
                    if u != v:
                        bad = "differs in the 16 MB from %d" % off
                        break
                    off += len(u)
        if bad:
            return False, "!ok-but-wrong:huge", bad, rep
        return True, "", "", rep
    e2e.settled(c, 3, once, "huge")
    c.case(("huge", size, enc, ports), sample="one file of %d bytes over %d ports, %s" % (size, ports, enc))
    c.add("bytes_compared", size)
    shutil.rmtree(root, ignore_errors=True)


def body(c):
    asan = c.build("asan", "xfer", ["xfer.cpp"])
    plain = c.build("plain", "xfer", ["xfer.cpp"])
    base = c.seed * 1000003
    if c.thorough:
        tsan = c.build("tsan", "xfer", ["xfer.cpp"])
        c.pmap(lambda i: one(c, tsan, base + i, "tsan"), range(400), workers=4)
    c.pmap(lambda i: one(c, asan, base + i, "asan"), range(c.n(350, 12000)))
    c.pmap(lambda i: one(c, plain, base + 500000 + i, "plain"), range(c.n(200, 6000)))
    huge(c, plain, (1 << 31) + 40000003, "none", 4)
    if c.thorough:
        huge(c, plain, (1 << 32) + 40000003, "aes128gcm", 8)
        huge(c, plain, (1 << 31) + 50000003, "aes128ctr", 1)


main(Check("C01", "exploration",
           "random source trees (sizes around block and buffer edges, odd names, deep, empty, many) and option "
           "combinations through real sender and receiver over loopback, some through a relay that splits the "
           "stream, with short/interrupted/delayed system calls, explicit file lists, and files beyond 2 GB; "
           "every destination tree is compared byte for byte; distinct = different option sets and trees",
           ["an undisturbed transfer that fails must fail in four attempts to count, loopback never being loaded "
            "that long"]), body)
