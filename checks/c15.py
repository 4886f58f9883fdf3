import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "tools"))
from vlib import *
import e2e

O_CREAT = os.O_CREAT
TO = [("b.read_timeout_millis", 3000), ("b.write_timeout_millis", 3000), ("r.max_accept_retries", 40)]


def shape(rng, b):
    k = rng.choice(["same", "samesize", "shorter", "longer", "empty", "prefix", "muchlonger", "byte"])
    n = len(b)
    if k == "same":
        return b
    if k == "samesize":
        return rng.randbytes(n)
    if k == "shorter":
        return rng.randbytes(rng.randrange(n) if n else 0)
    if k == "prefix":
        return b[:rng.randrange(n + 1)]
    if k == "longer":
        return b + rng.randbytes(rng.randrange(1, 5000))
    if k == "muchlonger":
        return rng.randbytes(n + rng.randrange(1, 300000))
    if k == "byte":
        return b + b"x"
    return b""


def stamp(p):
    s = os.lstat(p)
    return s.st_ino, s.st_size, s.st_mtime_ns, s.st_mode, s.st_nlink


def trace_of(path):
    out = []
    try:
        for l in open(path, "rb"):
            f = l.rstrip(b"\n").split(b"\t")
            if len(f) == 7:
                out.append((f[0].decode(), os.fsdecode(f[1]), int(f[2]), int(f[3]), int(f[4])))
    except FileNotFoundError:
        pass
    return out


def one(c, binary, seed, cfg):
    rng = random.Random("c15-%d" % seed)
    root = "%s/%s%d" % (c.tmp, cfg, seed)
    e2e.fresh(root)
    # (names with a newline would break the lines of the trace)
    files = e2e.gen_tree(rng, root + "/src", maxtotal=800000, odd=False)
    o = [x for x in e2e.rand_opts(rng) if x[0] not in ("r.overwrite", "r.disable_preallocation")]
    if rng.random() < .6:  # several threads with blocks of the same file
        o = [x for x in o if x[0] not in ("b.num_ports", "s.block_size_mbytes")]
        o += [("b.num_ports", rng.choice([4, 8])), ("s.block_size_mbytes", rng.choice([0.01, 0.02, 0.0625]))]
    mode = rng.choice(["keep", "keep", "keep", "overwrite", "overwrite", "overwrite", "skip", "none"])
    if rng.random() < .35:
        o.append(("r.disable_preallocation", "true"))
    if mode == "overwrite":
        o.append(("r.overwrite", "true"))
    if mode == "skip":
        o.append(("r.skip_writes", "true"))
        if rng.random() < .5:
            o.append(("r.overwrite", "true"))
    resume = mode == "overwrite" and rng.random() < .25
    if resume:
        o = [x for x in o if x[0] != "r.fsync"] + [("b.enable_download_resumption", "true")]
    names = sorted(files)
    conflicts = {}
    if mode != "none" and names:
        n = rng.choice([1, 1, 2, len(names), len(names)])
        for k in rng.sample(names, min(n, len(names))):
            conflicts[k] = shape(rng, files[k])
    extra = {"was/here%d" % i: rng.randbytes(rng.randrange(2000)) for i in range(rng.randrange(3))}
    special = None
    if names and mode in ("keep", "none") and rng.random() < .3:
        special = rng.choice(["dangling", "link", "dir", "readonly"])
        sk = rng.choice(names)
        conflicts.pop(sk, None)
    have = dict(conflicts)
    have.update(extra)
    args = [("src", root + "/src"), ("dst", root + "/dst")] + TO + o
    if rng.random() < .25:
        args.append(("chunk", rng.choice([300, 3000, 30000])))
    env = {}
    watch = cfg == "plain"
    if watch:
        env = {"LD_PRELOAD": core.build_faultio(), "FIO_ROOT": root + "/dst", "FIO_TRACE": root + "/trace"}
        if rng.random() < .4:
            env["FIO_DELAY"] = "%d:%d" % (rng.choice([100, 500, 900]), rng.choice([200, 2000]))

    def once(i):
        e2e.fresh(root + "/dst")
        e2e.fresh(root + "/aside")
        e2e.write_tree(root + "/dst", have)
        open(root + "/aside/t", "wb").write(b"target")
        ro = None
        if special:
            p = root + "/dst/" + sk
            os.makedirs(os.path.dirname(p), exist_ok=True)
            if special == "dangling":
                os.symlink(root + "/aside/none", p)
            elif special == "link":
                os.symlink(root + "/aside/t", p)
            elif special == "dir":
                os.makedirs(p)
            else:
                open(p, "wb").write(b"ro")
                os.chmod(p, 0o444)
        before = {k: stamp(root + "/dst/" + k) for k in have}
        if special:
            before[sk] = stamp(root + "/dst/" + sk)
        if os.path.exists(root + "/trace"):
            os.unlink(root + "/trace")
        x = e2e.xfer(binary, args, env=env, timeout=120)
        rep = {"cfg": cfg, "seed": seed, "mode": mode, "special": special, "args": args, "conflicts": sorted(conflicts), "env": env}
        if x.res.crash():
            return False, "!crash:" + x.res.crash(), x.res.text[-1500:], rep
        if not x.d:
            return False, "no-result", "rc=%s timeout=%s" % (x.res.rc, x.res.timed_out), rep
        what = "mode %s special %s conflicts %d: %s" % (mode, special, len(conflicts), x.brief())
        tr = trace_of(root + "/trace")
        c.add("operations_seen", len(tr))
        def touched(k):
            try:
                return stamp(root + "/dst/" + k) != before[k] or \
                    (k in have and open(root + "/dst/" + k, "rb").read() != have[k])
            except OSError:
                return True
        for k in extra:
            if touched(k):
                return False, "!file-of-nobody-changed", "%s %s" % (what, k), rep
        if os.listdir(root + "/aside") != ["t"] or open(root + "/aside/t", "rb").read() != b"target":
            return False, "!written-through-a-link", "%s %s" % (what, os.listdir(root + "/aside")), rep
        if mode in ("keep", "none"):
            hit = list(conflicts) + ([sk] if special else [])
            for k in hit:
                if touched(k):
                    return False, "!existing-file-modified", "%s %s" % (what, k), rep
            if hit and (x.ok("s") or x.ok("r")):
                return False, "!existing-file-reported-transferred", "%s %s" % (what, hit[:3]), rep
            done = {t["id"] for t in (x.rep("s")["sources"] or [])}
            bad = [k for k in hit if k in done]
            if bad:
                return False, "!existing-file-listed-as-transferred", "%s %s" % (what, bad[:3]), rep
            if not hit:
                d = e2e.diff(files, root + "/dst", extra_ok=extra)
                if d:
                    return False, "!wrong-tree" if x.both else "wrong-tree", "%s %s" % (what, d[:3]), rep
                if not x.both:
                    return False, "no-conflict-fails:%s/%s" % (x.err("s"), x.err("r")), what, rep
        elif mode == "overwrite":
            d = e2e.diff(files, root + "/dst", extra_ok=extra)
            if d and (x.ok("s") or x.ok("r")):
                return False, "!overwrite-wrong:" + d[0].split()[0], "%s %s" % (what, d[:3]), rep
            if d or not x.both:
                return False, "overwrite-fails:%s/%s" % (x.err("s"), x.err("r")), "%s %s" % (what, d[:3]), rep
        else:
            got, dirs = e2e.read_tree(root + "/dst")
            if got != have:
                return False, "!skip-writes-wrote", "%s %s" % (what, sorted(set(got) ^ set(have))[:4]), rep
            if any(touched(k) for k in have):
                return False, "!skip-writes-modified", what, rep
            if not x.both:
                return False, "skip-writes-fails:%s/%s" % (x.err("s"), x.err("r")), what, rep
            wrote = [t for t in tr if t[0] in ("write", "pwrite", "fallocate", "truncate", "unlink", "rename", "mkdir")
                     or (t[0] == "open" and t[2] & O_CREAT)]
            if wrote:
                return False, "!skip-writes-operations", "%s %s" % (what, wrote[:3]), rep
        # every file is created once and sized once
        created, sized = {}, {}
        for op, p, a, b, r in tr:
            if os.path.basename(p) in e2e.LOGS:
                continue
            if op == "open" and a & O_CREAT:
                created[p] = created.get(p, 0) + 1
            if op in ("fallocate", "truncate"):
                sized[p] = sized.get(p, 0) + (op == "fallocate")
        again = [p for p, n in created.items() if n > 1] + [p for p, n in sized.items() if n > 1]
        # (an open is retried once after making the directories or when the name is too long)
        dirs_made = {os.path.dirname(p) for op, p, a, b, r in tr if op == "mkdir"}
        again = [p for p in again if created.get(p, 0) > 2 or sized.get(p, 0) > 1 or
                 (created.get(p, 0) == 2 and sum(1 for op, q, a, b, r in tr if q == p and op == "open" and a & O_CREAT and r >= 0) > 1)]
        if again and x.both:
            return False, "!created-or-sized-twice", "%s %s" % (what, again[:3]), rep
        c.add("files_created_once", len(created))
        # a write before the file got its size could be lost by the sizing
        if x.both:
            opened = set()
            for op, p, a, b, r in tr:
                if op == "open" and a & O_CREAT and r >= 0:
                    opened.add(p)
                if op in ("write", "pwrite") and os.path.basename(p) not in e2e.LOGS and p not in opened and not resume:
                    return False, "!write-before-creation", "%s %s" % (what, p), rep
        return True, "", what, rep
    e2e.settled(c, 3, once, "seed %d" % seed)
    c.case((mode, special, len(conflicts)) + e2e.okey(o),
           sample="%s %s: %d of %d files exist, %d others" % (mode, special, len(conflicts), len(files), len(extra)))
    c.add("mode_" + mode)
    if special:
        c.add("special_" + special)
    shutil.rmtree(root, ignore_errors=True)


def body(c):
    plain = c.build("plain", "xfer", ["xfer.cpp"])
    asan = c.build("asan", "xfer", ["xfer.cpp"])
    base = c.seed * 1000003
    c.pmap(lambda i: one(c, plain, base + i, "plain"), range(c.n(420, 12000)), workers=12)
    c.pmap(lambda i: one(c, asan, base + 500000 + i, "asan"), range(c.n(70, 3000)), workers=12)


main(Check("C15", "exploration",
           "random trees sent into destinations that already hold some of the files (same, other content, shorter, longer, empty; "
           "links, directories, read only) with overwriting on, off and writes skipped; contents, inodes and times judged, and "
           "creation, sizing and writes of every file watched at the system call; distinct = different modes and options",
           ["a file counts as created once when at most one creating open succeeded"]), body)
