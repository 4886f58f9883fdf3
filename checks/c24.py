import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "tools"))
from vlib import *
import e2e

CUR = 32
EDGES = [10, 11, 12, 13, 15, 16, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32]
FAST = [("b.read_timeout_millis", 1500), ("b.write_timeout_millis", 1500), ("r.max_accept_retries", 40)]


def versions(rng):
    r = rng.random()
    a = rng.choice(EDGES)
    if r < .2:
        return a, a
    if r < .5:
        return max(10, a - 1), a
    if r < .65:
        return a, max(10, a - 1)
    if r < .75:
        return rng.choice([33, 40, 1000]), a
    if r < .85:
        return a, rng.choice([33, 40, 1000])
    return rng.choice(EDGES), rng.choice(EDGES)


def same(rv, sv):
    return min(rv, CUR) == min(sv, CUR)


def one(c, binary, seed, cfg):
    """two versions, no faults: identical files, the lower version, its features only"""
    rng = random.Random("c24-%d" % seed)
    root = "%s/%s%d" % (c.tmp, cfg, seed)
    e2e.fresh(root)
    big = rng.random() < .12
    files = e2e.gen_tree(rng, root + "/src", maxtotal=4000000 if big else 400000, kind="big" if big else None)
    o = e2e.rand_opts(rng)
    if big:
        o.append(("r.iv_change_interval_mb", 1))
    rv, sv = versions(rng)
    bad = rng.random() < .12
    if bad:
        if rng.random() < .5:
            rv = rng.choice([1, 5, 9])
        else:
            sv = rng.choice([1, 5, 9])
    low = min(rv, sv, CUR)
    resume = rng.random() < .2
    if resume:
        o += [("b.enable_download_resumption", "true")]
        o = [x for x in o if x[0] != "r.fsync"]
    args = [("src", root + "/src"), ("dst", root + "/dst"), ("rproto", rv), ("sproto", sv)] + FAST + o
    # (a relay may lose the answer of a receiver that then resets the connection)
    if rng.random() < .3 and rv >= sv and not bad and not big:
        args.append(("chunk", rng.choice([100, 200, 256, 1000])))

    def once(i):
        e2e.fresh(root + "/dst")
        more = [("b.read_timeout_millis", 20000), ("b.write_timeout_millis", 20000)] if i else []
        x = e2e.xfer(binary, args + more, timeout=120)
        rep = {"cfg": cfg, "seed": seed, "args": args}
        if x.res.crash():
            return False, "!crash:" + x.res.crash(), x.res.text[-1500:], rep
        if not x.d:
            return False, "no-result", "rc=%s timeout=%s %s" % (x.res.rc, x.res.timed_out, x.res.text[-500:]), rep
        c.add("outcome_%s_%s" % (x.err("s"), x.err("r")))
        what = "receiver %d sender %d: %s sver=%s rver=%s" % (rv, sv, x.brief(), x.d.get("sver"), x.d.get("rver"))
        d = e2e.diff(files, root + "/dst")
        if bad:
            if x.ok("s") or x.ok("r"):
                return False, "!unsupported-version-succeeded", what, rep
            if x.err("s") != "VERSION_INCOMPATIBLE" or x.err("r") != "VERSION_INCOMPATIBLE":
                return False, "version-error-not-reported", what, rep
            got, _ = e2e.read_tree(root + "/dst")
            if any(k not in e2e.LOGS for k in got):
                return False, "!files-from-unsupported-version", "%s %s" % (what, sorted(got)[:4]), rep
            return True, "", what, rep
        if x.both and d:
            return False, "!ok-but-wrong", "%s %s" % (what, d[:4]), rep
        if not x.both:
            return False, "versions-do-not-work:%s/%s" % (x.err("s"), x.err("r")), what, rep
        if x.d["sver"] != low:
            return False, "!not-the-lower-version", what, rep
        enc = e2e.odict(o)["b.encryption_type"]
        st = {t["enc"] for s in "sr" for t in x.rep(s)["threads"] if t["blocks"]}
        # the receiver makes keys from version 23 on
        want = {"none": 0, "aes128ctr": 1, "aes128gcm": 2}[enc] if rv >= 23 else 0
        if st - {want}:
            return False, "!encryption-of-the-wrong-version", "%s %s enc %s" % (what, enc, st), rep
        return True, "", what, rep
    e2e.settled(c, 4, once, "seed %d r%d s%d" % (seed, rv, sv))
    c.case((rv, sv) + e2e.okey(o), sample="receiver %d sender %d %s" % (rv, sv, e2e.odict(o)))
    c.add("pairs_refused" if bad else "pairs_completed")
    shutil.rmtree(root, ignore_errors=True)


def faults(c, binary, seed):
    """two versions and broken connections: the recovery of every version is right"""
    rng = random.Random("c24f-%d" % seed)
    root = "%s/f%d" % (c.tmp, seed)
    e2e.fresh(root)
    files = e2e.gen_tree(rng, root + "/src", maxtotal=500000)
    o = [x for x in e2e.rand_opts(rng) if x[0] != "b.num_ports"]
    np = rng.choice([1, 2, 2, 3])
    o.append(("b.num_ports", np))
    rv, sv = versions(rng)
    args = [("src", root + "/src"), ("dst", root + "/dst"), ("rproto", rv), ("sproto", sv)] + FAST + o
    rules = []
    clean = np > 1
    agreed = True   # no fault while the version is being agreed
    if rng.random() < .4:
        # several failures of one connection, received parts being used
        rv = sv = rng.choice([10, 15, 16, 18, 20, 20, 21, 22, 29, 32])
        o = [x for x in o if x[0] not in ("b.encryption_type", "s.enable_checksum")] + \
            [("b.encryption_type", "none"), ("s.enable_checksum", "false")]
        args = [("src", root + "/src"), ("dst", root + "/dst"), ("rproto", rv), ("sproto", sv)] + FAST + o
        for k in range(rng.choice([2, 3, 3])):
            rules.append("%d:%d:s:%d:%s" % (np - 1, k, rng.choice([20, 60, 300, rng.randrange(70000), rng.randrange(70000)]),
                                            rng.choice(["rst", "fin"])))
        if rng.random() < .4:
            rules.append("0:0:s:%d:stall:300" % rng.choice([0, 2000, 60000]))
    for k in range(rng.choice([1, 2, 3]) if not rules else 0):
        d = rng.choice("sssr")
        pos = rng.choice([rng.randrange(600), rng.randrange(3000), rng.randrange(100000)]) if d == "s" else rng.randrange(120)
        k = rng.choice([0, 0, 1, 2])
        if same(rv, sv) or rng.random() < .3:
            agreed = agreed and (k > 0 or same(rv, sv))
        else:
            k += 1
        rules.append("%d:%d:%s:%d:%s" % (rng.randrange(1 if clean else 0, np), k, d, pos,
                                        rng.choice(["rst", "fin", "rst", "stall:500"])))

    def once(i):
        e2e.fresh(root + "/dst")
        x = e2e.xfer(binary, args + [("f", r) for r in rules], timeout=120)
        rep = {"seed": seed, "args": args, "rules": rules}
        if x.res.crash():
            return False, "!crash:" + x.res.crash(), x.res.text[-1500:], rep
        if not x.d:
            return False, "no-result", "rc=%s timeout=%s" % (x.res.rc, x.res.timed_out), rep
        c.add("faults_fired", sum(1 for q in x.d["conns"] if q[4]))
        d = e2e.diff(files, root + "/dst")
        what = "receiver %d sender %d %s: %s %s" % (rv, sv, rules, x.brief(), d[:3])
        if d and (x.ok("s") or x.ok("r")):
            return False, "!ok-but-wrong-after-fault", what, rep
        # (a connection lost while the version is being agreed may end the transfer, not silently: the receiver
        # can not know yet what length of checkpoint the sender expects)
        if clean and agreed and rv >= min(sv, CUR) and not x.both:
            return False, "no-recovery:%s/%s" % (x.err("s"), x.err("r")), what, rep
        return True, "", what, rep
    e2e.settled(c, 4, once, "fault seed %d" % seed)
    c.case(("f", rv, sv, tuple(rules)), sample="receiver %d sender %d ports %d %s" % (rv, sv, np, rules))
    shutil.rmtree(root, ignore_errors=True)


def again(c, binary, seed):
    """an interrupted transfer resumed by other versions, with and without deletion"""
    rng = random.Random("c24r-%d" % seed)
    root = "%s/r%d" % (c.tmp, seed)
    e2e.fresh(root)
    files = e2e.gen_tree(rng, root + "/src", kind=rng.choice(["mixed", "edges", "many"]), maxtotal=400000, odd=False)
    base = [x for x in e2e.rand_opts(rng) if x[0] not in ("b.num_ports", "r.fsync", "r.overwrite", "r.disable_preallocation")]
    base += [("b.num_ports", rng.choice([1, 2, 3])), ("b.enable_download_resumption", "true"), ("recovery", "rec")] + FAST
    tree = rng.random() < .3
    if tree:
        # (blocks would make an interrupted tree untrusted)
        base = [x for x in base if x[0] != "s.block_size_mbytes"]
        base += [("r.resume_using_dir_tree", "true"), ("r.disable_preallocation", "true"), ("s.block_size_mbytes", -1)]
    extra = {"old/x%d" % i: rng.randbytes(rng.randrange(3000)) for i in range(rng.randrange(1, 4))}
    e2e.write_tree(root + "/dst", {} if rng.random() < .5 else extra)
    had, _ = e2e.read_tree(root + "/dst")
    delete = rng.random() < .6
    if delete:
        base.append(("b.delete_extra_files", "true"))
    vs = [versions(rng) for _ in range(2)]
    rep = {"seed": seed, "base": base, "versions": vs}
    tot = sum(map(len, files.values()))
    x = e2e.xfer(binary, [("src", root + "/src"), ("dst", root + "/dst"), ("rproto", vs[0][0]), ("sproto", vs[0][1]),
                          ("proxy", 1), ("act", "%s:abort:b%d" % (rng.choice("sr"), rng.randrange(300, tot + 600)))] + base, timeout=120)
    if x.res.crash():
        c.violation("crash:" + x.res.crash(), x.res.text[-1500:], rep)
    mid, _ = e2e.read_tree(root + "/dst")
    mid_ok = ".wdt.log" in mid and len(mid[".wdt.log"]) > 0

    def once(i):
        if i:
            e2e.fresh(root + "/dst")
            e2e.write_tree(root + "/dst", mid)
        x = e2e.xfer(binary, [("src", root + "/src"), ("dst", root + "/dst"), ("rproto", vs[1][0]), ("sproto", vs[1][1])] + base, timeout=120)
        if x.res.crash():
            return False, "!crash:" + x.res.crash(), x.res.text[-1500:], rep
        if not x.d:
            return False, "no-result", "rc=%s timeout=%s" % (x.res.rc, x.res.timed_out), rep
        left = {k for k in had if k in e2e.read_tree(root + "/dst")[0]}
        d = e2e.diff(files, root + "/dst", extra_ok=had, dirs=False)
        what = "%s then %s (receiver, sender): %s %s" % (vs[0], vs[1], x.brief(), d[:3])
        if not x.both:
            return False, "resumption-fails:%s/%s" % (x.err("s"), x.err("r")), what, rep
        if d:
            return False, "!ok-but-wrong-resumed", what, rep
        # deletion needs version 26 on both ends
        if delete and tree and mid_ok and min(vs[0]) >= 13 and min(vs[1]) >= 26 and left:
            return False, "!not-deleted", what + " left %s" % sorted(left)[:3], rep
        # what the first transfer lists may already include what was there
        can = delete and (min(vs[1]) >= 26 or min(vs[0]) >= 26)
        if not can and len(left) != len(had):
            return False, "!deleted-by-version-without-deletion", what, rep
        return True, "", what, rep
    e2e.settled(c, 4, once, "resume seed %d" % seed)
    c.case(("r", tuple(vs), tree, delete), sample="resumed: %s then %s tree=%s delete=%s" % (vs[0], vs[1], tree, delete))
    shutil.rmtree(root, ignore_errors=True)


def body(c):
    asan = c.build("asan", "xfer", ["xfer.cpp"])
    plain = c.build("plain", "xfer", ["xfer.cpp"])
    base = c.seed * 1000003
    c.pmap(lambda i: one(c, asan, base + i, "asan"), range(c.n(160, 6000)), workers=12)
    c.pmap(lambda i: one(c, plain, base + 400000 + i, "plain"), range(c.n(180, 6000)), workers=12)
    c.pmap(lambda i: faults(c, asan, base + i), range(c.n(70, 3000)), workers=14)
    c.pmap(lambda i: again(c, plain, base + i), range(c.n(110, 4000)), workers=12)


main(Check("C24", "exploration",
           "pairs of receiver and sender versions (every edge from 10 to the current one, the neighbours of each, newer than "
           "current and unsupported ones) with random trees and options, with connection faults, and resumed by other "
           "versions with and without deletion; trees compared byte for byte, agreed version, encryption per thread and "
           "deletion judged against the version table; distinct = different version pairs and options",
           ["versions are simulated by the version setting of one build, as the project's own mechanism does"]), body)
