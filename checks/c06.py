import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "tools"))
from vlib import *
import e2e, wlog

FAST = [("b.read_timeout_millis", 1500), ("b.write_timeout_millis", 1500), ("b.connect_timeout_millis", 500),
        ("r.max_accept_retries", 30), ("r.accept_window_millis", 1500), ("s.max_retries", 4), ("s.max_transfer_retries", 2)]
DROP = ["s.block_size_mbytes", "r.disable_preallocation", "b.num_ports", "report_cb", "s.avg_mbytes_per_sec", "r.overwrite"]


def config(rng):
    o = [x for x in e2e.rand_opts(rng) if x[0] not in DROP]
    o += [("b.num_ports", rng.choice([1, 2, 2, 3, 8])), ("b.enable_download_resumption", "true"), ("recovery", "rec"),
          ("s.block_size_mbytes", rng.choice([-1, 0.01, 0.02, 0.0625, 1]))]
    if rng.random() < .3:
        o.append(("r.disable_preallocation", "true"))
    if rng.random() < .3:
        o.append(("r.enable_transfer_log_compaction", "true"))
    if rng.random() < .3:
        o.append(("r.transfer_log_write_interval_ms", rng.choice([1, 20, 500])))
    return o + FAST


def getlog(dst):
    try:
        with open(dst + "/.wdt.log", "rb") as f:
            return f.read()
    except OSError:
        return b""


def disk(c, files, dst, what, rep):
    """What the log claims must be on disk."""
    log = getlog(dst)
    try:
        cl = wlog.claims(log, "rec")
    except wlog.Bad as e:
        # (only resumption judges damaged logs; here nothing damages them)
        return None, (False, "!log-unreadable", "%s: %s after %s" % (e, log[:80], what), rep)
    n = 0
    for name, (size, iv) in cl.items():
        want = files.get(name)
        if want is None:
            return None, (False, "!unknown-file-in-log", "%r after %s" % (name, what), rep)
        if not iv:
            continue
        try:
            with open(os.path.join(dst, name), "rb") as f:
                got = f.read()
        except OSError as e:
            return None, (False, "!logged-file-missing", "%r %s after %s" % (name, e, what), rep)
        for a, b in iv:
            n += b - a
            if got[a:b] != want[a:b] or b > len(want):
                bad = next((i for i in range(a, b) if got[i:i + 1] != want[i:i + 1]), -1)
                return None, (False, "!logged-but-not-on-disk", "%r logged %s of %d, differs at %d (disk %d bytes) after %s" %
                              (name, iv[:4], len(want), bad, len(got), what), rep)
    c.add("claims_checked", len(cl))
    c.add("claimed_bytes", n)
    return cl, None


def order(c, trace, dst, what, rep, before=None):
    try:
        with open(trace, "rb") as f:
            t = f.read()
        bad, seen = wlog.unsynced(t, dst, getlog(dst), before)
    except (OSError, wlog.Bad):
        return None
    c.add("logged_blocks_ordered", seen)
    if bad:
        return False, "!logged-before-synced", "%s after %s" % (bad[:3], what), rep
    return None


def interruption(rng, nmut, total, ports):
    k = rng.choice(["crash", "crash", "crash", "cut", "abort", "killr", "kills", "fail", "crashr"])
    if k in ("crash", "crashr"):
        n = rng.randrange(1, 12) if rng.random() < .25 else rng.randrange(1, nmut + 2)
        return k, "%d:%s" % (n, rng.choice("bap"))
    if k == "cut":
        return k, ["*:*:%s:%d:%s" % (rng.choice("sssr"), rng.randrange(total // ports + 600), rng.choice(["rst", "fin"]))]
    if k == "abort":
        return k, "%s:abort:b%d" % (rng.choice("sr"), rng.randrange(total + 1000))
    if k == "fail":
        op = rng.choice(["write", "write", "fsync", "fsync", "fsync", "fallocate", "open", "truncate"])
        return k, ",".join("%s:%d:%d" % (op, rng.randrange(1, max(2, nmut // 3)), rng.choice([5, 28])) for _ in range(rng.choice([1, 2, 4])))
    return k, rng.choice([0, .01, .02, .05, .1]) * rng.random()


def run1(c, binary, args, dst, kind, par, trace):
    """One interrupted run; returns ([X...], text)."""
    env = {"LD_PRELOAD": core.build_faultio(), "FIO_ROOT": dst, "FIO_TRACE": trace}
    if kind == "crash":
        env["FIO_CRASH"] = par
    if kind == "fail":
        env["FIO_FAIL"] = par
    if kind in ("killr", "kills", "crashr"):
        ra = [("role", "recv"), ("dst", dst)] + [x for x in args if x[0] not in ("src", "dst") and not x[0].startswith("s.")]
        sa = [("role", "send")] + [x for x in args if x[0] not in ("dst", "recovery") and not x[0].startswith("r.")]
        if kind == "crashr":
            env["FIO_CRASH"] = par
            par = None
        r, s = e2e.pair(binary, ra, sa, renv=env, kill=(kind[-1], par) if par is not None else None)
        return [x for x in (r, s) if x]
    a = list(args)
    if kind == "cut":
        a += [("f", r) for r in par]
    if kind == "abort":
        a += [("proxy", 1), ("act", par)]
    return [e2e.xfer(binary, a, env=env, timeout=90)]


def verdicts(c, xs, files, dst, kind, what, rep):
    """No run may crash by itself, hang, or claim success over a wrong tree."""
    for x in xs:
        cr = x.res.crash()
        if cr and cr != "signal:9":
            return False, "!crash:" + cr, x.res.text[-1500:] + what, rep
        if x.res.timed_out:
            return False, "hang", what, rep
        if not x.d and cr != "signal:9":
            return False, "no-result", "rc=%s %s %s" % (x.res.rc, x.res.text[-300:], what), rep
        for side in "sr":
            if x.ok(side):
                d = e2e.diff(files, dst)
                if d:
                    return False, "!ok-but-wrong", "%s %s %s" % (side, d[:3], what), rep
    return None


def history(c, binary, seed, cfg):
    rng = random.Random("c06-%d" % seed)
    root = "%s/%sh%d" % (c.tmp, cfg, seed)
    e2e.fresh(root)
    src, dst = root + "/src", root + "/dst"
    odd = rng.random() < .25
    files = e2e.gen_tree(rng, src, maxtotal=400000, odd=odd, kind=rng.choice([None, None, "many", "big", "deep", "edges"]))
    if rng.random() < .25:  # (only that of the root is a log)
        files["sub/.wdt.log"] = rng.randbytes(700)
        e2e.write_tree(src, {"sub/.wdt.log": files["sub/.wdt.log"]})
    total = sum(map(len, files.values()))
    o = config(rng)
    args = [("src", src), ("dst", dst)] + o
    if rng.random() < .2:
        # the source was itself received: it has the log of a complete transfer
        e2e.fresh(dst)
        e2e.xfer(binary, args)
        if os.path.exists(dst + "/.wdt.log"):
            shutil.copy(dst + "/.wdt.log", src + "/.wdt.log")
            c.add("sources_with_a_log")
    nmut = 6 * len(files) + total // 20000 + 8
    ports = e2e.odict(o)["b.num_ports"]
    hist = [interruption(rng, nmut, total, ports) for _ in range(rng.choice([1, 1, 2, 3, 4]))]
    change = rng.random() < .15
    other = [x for x in o if x[0] != "s.block_size_mbytes"] + [("s.block_size_mbytes", rng.choice([-1, 0.03, 1])),
                                                              ("r.disable_preallocation", rng.choice(["true", "false"]))]

    def once(i):
        e2e.fresh(dst)
        rep = {"cfg": cfg, "seed": seed, "args": args, "history": hist}
        done, cl = [], None
        for j, (kind, par) in enumerate(hist):
            trace = "%s/trace%d" % (root, j)
            if os.path.exists(trace):
                os.unlink(trace)
            xs = run1(c, binary, args, dst, kind, par, trace)
            done.append("%s %s: %s" % (kind, par, " / ".join(x.brief()[:120] for x in xs)))
            what = "; ".join(done)
            c.add("run_%s_%s" % (kind, "killed" if any(x.res.rc == -9 for x in xs) else "ok" if xs[0].ok("r") else "failed"))
            bad = verdicts(c, xs, files, dst, kind, what, rep)
            if bad:
                return bad
            was = cl
            cl, bad = disk(c, files, dst, what, rep)
            if bad:
                return bad
            # (a compacted log is written again)
            compacted = e2e.odict(o).get("r.enable_transfer_log_compaction") and any(x.ok("r") or not x.d for x in xs)
            if not odd and not compacted:
                bad = order(c, trace, dst, what, rep, was)
                if bad:
                    return bad
        had, bad = disk(c, files, dst, what, rep)
        x = e2e.xfer(binary, [("src", src), ("dst", dst)] + other if change else args, timeout=90)
        what += "; then %s" % x.brief()
        bad = verdicts(c, [x], files, dst, "", what, rep)
        if bad:
            return bad
        if not x.both:
            return False, "resume-fails:%s/%s" % (x.err("s"), x.err("r")), what, rep
        d = e2e.diff(files, dst)
        if d:
            return False, "!incomplete", "%s %s" % (d[:3], what), rep
        if not change:
            sent, claimed = x.rep("s")["summary"]["data"], sum(wlog.length(iv) for _, iv in had.values())
            c.add("bytes_not_sent_again", claimed)
            if sent > total - claimed:
                return False, "sent-again", "sent %d, %d of %d were recorded; %s" % (sent, claimed, total, what), rep
            if sent < total - claimed:
                return False, "!sent-too-little", "sent %d, %d of %d were recorded; %s" % (sent, claimed, total, what), rep
        return True, "", what, rep
    e2e.settled(c, 3, once, "history %d" % seed)
    c.case((tuple(str(h) for h in hist), change) + e2e.okey(o), sample="%d files %d bytes: %s then %s" % (len(files), total, hist, "other options" if change else "again"))
    shutil.rmtree(root, ignore_errors=True)


def sweep(c, binary, seed, cfg):
    """A small transfer killed at each of its changes to the destination."""
    rng = random.Random("c06s-%d" % seed)
    root = "%s/%ss%d" % (c.tmp, cfg, seed)
    e2e.fresh(root)
    src = root + "/src"
    files = {"a": rng.randbytes(30000), "d/b": rng.randbytes(9000), "d/e/z": b"", "c": rng.randbytes(rng.randrange(3, 25000))}
    e2e.write_tree(src, files)
    total = sum(map(len, files.values()))
    o = [x for x in config(rng) if x[0] not in ("b.num_ports", "s.block_size_mbytes", "r.transfer_log_write_interval_ms")]
    o += [("b.num_ports", seed % 2 + 1), ("s.block_size_mbytes", 0.01), ("r.transfer_log_write_interval_ms", 1)]
    args0 = [("src", src)] + o

    def point(p):
        n, m = p
        dst = "%s/dst%d%s" % (root, n, m)
        args = args0 + [("dst", dst)]

        def once(i):
            e2e.fresh(dst)
            trace = dst + ".trace"
            if os.path.exists(trace):
                os.unlink(trace)
            rep = {"cfg": cfg, "sweep": seed, "args": args, "crash": "%d:%s" % p}
            xs = run1(c, binary, args, dst, "crash", "%d:%s" % p, trace)
            what = "killed at change %d%s: %s" % (n, m, xs[0].brief()[:150])
            bad = verdicts(c, xs, files, dst, "crash", what, rep)
            if bad:
                return bad
            cl, bad = disk(c, files, dst, what, rep)
            if not (e2e.odict(o).get("r.enable_transfer_log_compaction") and (xs[0].ok("r") or not xs[0].d)):
                bad = bad or order(c, trace, dst, what, rep)
            if bad:
                return bad
            killed = xs[0].res.rc == -9
            x = e2e.xfer(binary, args, timeout=90)
            what += "; then %s" % x.brief()
            bad = verdicts(c, [x], files, dst, "", what, rep)
            if bad:
                return bad
            d = e2e.diff(files, dst)
            if x.both and d:
                return False, "!incomplete", "%s %s" % (d[:3], what), rep
            if not x.both:
                return False, "resume-fails:%s/%s" % (x.err("s"), x.err("r")), what, rep
            claimed = sum(wlog.length(iv) for _, iv in cl.values())
            sent = x.rep("s")["summary"]["data"]
            if sent != total - claimed:
                return False, "sent-again" if sent > total - claimed else "!sent-too-little", "sent %d, %d of %d recorded; %s" % (sent, claimed, total, what), rep
            c.add("sweep_killed" if killed else "sweep_over")
            return True, "", what, rep
        e2e.settled(c, 3, once, "sweep %d at %s" % (seed, p))
        c.case(("sweep", seed, p))
        shutil.rmtree(dst, ignore_errors=True)
    c.pmap(point, [(n, m) for n in range(1, c.n(48, 60)) for m in ("ba" if n % 3 else "bap")], workers=14)
    shutil.rmtree(root, ignore_errors=True)


def body(c):
    plain = c.build("plain", "xfer", ["xfer.cpp"])
    asan = c.build("asan", "xfer", ["xfer.cpp"])
    base = c.seed * 1000003
    for i in range(c.n(2, 30)):
        sweep(c, plain, base + i, "p")
    c.pmap(lambda i: history(c, plain, base + i, "p"), range(c.n(140, 9000)), workers=14)
    c.pmap(lambda i: history(c, asan, base + 50000 + i, "a"), range(c.n(50, 3000)), workers=12)


main(Check("C06", "exploration",
           "real transfers with a log, interrupted up to four times: killed at each (small trees) or a random change to the "
           "destination, before, after or in the middle of it, together or one end alone; cut on all connections; aborted; "
           "failing writes and syncs; after each, every block the log names is compared with the disk and the recorded order of "
           "writes, syncs and log writes; the last run must complete and send exactly what was not recorded; "
           "distinct = different histories and options",
           ["the source does not change meanwhile", "a kill loses no data already given to the operating system; "
            "what a power failure would lose is judged by the order of syncs and log writes"]), body)
