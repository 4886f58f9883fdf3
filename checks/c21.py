import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "tools"))
from vlib import *
import e2e

FAST = [("b.read_timeout_millis", 1500), ("b.write_timeout_millis", 1500), ("b.connect_timeout_millis", 500),
        ("r.max_accept_retries", 25), ("r.accept_window_millis", 1500), ("s.max_retries", 4), ("s.max_transfer_retries", 2)]
DROP = ["s.block_size_mbytes", "b.num_ports", "report_cb", "b.progress_report_interval_millis", "s.full_reporting", "r.overwrite"]
SUM = ["hdr", "data", "ehdr", "edata", "blocks"]


def blocks_of(size, bs):
    return 1 if bs <= 0 or size == 0 else -(-size // bs)


def ident(s):
    return s.encode("latin-1")


def one(c, binary, seed, cfg):
    rng = random.Random("c21-%d" % seed)
    root = "%s/%s%d" % (c.tmp, cfg, seed)
    e2e.fresh(root)
    src, dst = root + "/src", root + "/dst"
    files = e2e.gen_tree(rng, src, maxtotal=rng.choice([100000, 600000, 1500000]), kind=rng.choice([None, None, "many", "big", "deep", "edges", "empty"]))
    total = sum(map(len, files.values()))
    o = [x for x in e2e.rand_opts(rng) if x[0] not in DROP] + FAST
    np = rng.choice([1, 2, 3, 8])
    bsm = rng.choice([-1, 0.005, 0.01, 0.0625, 0.3, 16])
    bs = int(bsm * 1024 * 1024) if bsm > 0 else 0
    full = rng.random() < .7
    o += [("b.num_ports", np), ("s.block_size_mbytes", bsm), ("s.full_reporting", "true" if full else "false"), ("report_cb", 1),
          ("b.progress_report_interval_millis", rng.choice([1, 5, 50])), ("proxy", 1)]
    kind = rng.choice(["clean", "clean", "faults", "faults", "faults", "deny", "receiver", "resume", "abort", "listed"])
    env, extra, denied = {}, [], None
    before = {}
    plainnames = [k for k in files if b"/" not in k and not set(k) - set(b"abcdefghijklmnopqrstuvwxyz0123456789._-")] if files and isinstance(next(iter(files)), bytes) else \
        [k for k in files if not set(k) - set("abcdefghijklmnopqrstuvwxyz0123456789._-/")]
    if kind == "faults":
        for _ in range(rng.choice([1, 1, 2, 4])):
            d, a = rng.choice("sssr"), rng.choice(["rst", "fin", "refuse", "black"])
            # (stalling every connection after little progress would go on for minutes)
            extra.append(("f", "%s:%s:%s:%d:%s" % (rng.choice(["*", rng.randrange(np), rng.randrange(np)]), rng.choice(["0", "0", "1", "*"] if a != "black" else "01"), d,
                                                   rng.randrange(total // np + 700) if d == "s" else rng.randrange(700), a)))
    elif kind == "deny" and plainnames:
        denied = rng.choice(plainnames)
        env = {"LD_PRELOAD": core.build_faultio(), "FIO_ROOT": root, "FIO_DENY": src + "/" + denied}
    elif kind == "receiver":
        env = {"LD_PRELOAD": core.build_faultio(), "FIO_ROOT": dst, "FIO_FAIL": "%s:%d:%d" % (rng.choice(["write", "write", "open"]), rng.randrange(1, 3 * len(files) + 3), rng.choice([28, 5]))}
    elif kind == "resume":
        o = [x for x in o if x[0] not in ("r.disable_preallocation",)]
        extra = [("b.enable_download_resumption", "true"), ("r.resume_using_dir_tree", "true"), ("r.disable_preallocation", "true"), ("recovery", "rec")]
        for k in files:
            if rng.random() < .6:
                before[k] = files[k][:rng.choice([len(files[k]), len(files[k]) // 2, 0, rng.randrange(len(files[k]) + 1)])]
    elif kind == "abort":
        extra = [("act", "%s:abort:b%d" % (rng.choice("sr"), rng.randrange(total + 500)))]
    elif kind == "listed":
        good = [k for k in files if "|" not in k and "\n" not in k and "\r" not in k]
        files = {k: files[k] for k in good if rng.random() < .7}
        total = sum(map(len, files.values()))
        with open(root + "/list", "w") as f:
            for k in files:
                f.write("%s|%d|0\n" % (k, rng.choice([-1, len(files[k])])))
        extra = [("list", root + "/list")]
    args = [("src", src), ("dst", dst)] + o + extra

    def once(i):
        e2e.fresh(dst)
        if before:
            e2e.write_tree(dst, before)
        x = e2e.xfer(binary, args, env=env, timeout=100)
        rep = {"cfg": cfg, "seed": seed, "kind": kind, "args": args, "env": env}
        what = "%s %d files of %d bytes, %d ports, block %s: %s" % (kind, len(files), total, np, bsm, x.brief()[:300])
        cr = x.res.crash()
        if cr:
            return False, "!crash:" + cr, x.res.text[-2500:], rep
        if x.res.timed_out or not x.d or not x.rep("s") or not x.rep("r"):
            return False, "no-result", "rc=%s timeout=%s %s" % (x.res.rc, x.res.timed_out, what), rep
        S, R = x.rep("s"), x.rep("r")
        s, r = S["summary"], R["summary"]
        bad = []

        def eq(name, a, b):
            if a != b:
                bad.append("%s: %s != %s" % (name, a, b))

        def le(name, a, b):
            if a > b:
                bad.append("%s: %s > %s" % (name, a, b))
        got, _ = e2e.read_tree(dst)
        got = {k: v for k, v in got.items() if k not in e2e.LOGS}
        wire = [sum(q[2] for q in x.d["conns"]), sum(q[3] for q in x.d["conns"])]
        # the summary is the sum over the threads
        for k in SUM + ["failed"]:
            eq("sum-of-threads-" + k, s[k], sum(t[k] for t in S["threads"]))
        eq("threads", len(S["threads"]), np)
        for t in S["threads"] + [s, r]:
            for k in SUM + ["failed", "files"]:
                le("negative-" + k, 0, t[k])
            le("effective-data", t["edata"], t["data"])
            le("effective-header", t["ehdr"], t["hdr"])
        # nothing counted that was not exchanged
        exact = kind in ("clean", "listed", "resume", "deny")   # nothing was left in a broken connection's buffers
        if exact:
            le("more-data-than-wire", s["data"], wire[0])
            le("receiver-more-than-wire", r["data"] + r["hdr"], wire[0] + wire[1])
            le("sender-more-than-wire", s["data"] + s["hdr"], wire[0] + wire[1])
        le("received-more-than-sent", r["data"], wire[0])
        need = {k: len(v) - len(before.get(k, b"")) for k, v in files.items()}
        size = sum(need.values())
        nblocks = sum(blocks_of(n, bs) for k, n in need.items() if n or k not in before)
        nfiles = sum(1 for k, n in need.items() if n or k not in before)
        if x.ok("s"):
            eq("s-discovered", S["discovered"], nfiles)
            eq("s-files", s["files"], nfiles)
            eq("s-total", S["total"], size)
            eq("s-effective", s["edata"], size)
            eq("s-prev", S["prev"], sum(map(len, before.values())))
            le("s-data", size, s["data"])
            eq("s-failed-sources", S["failedSources"], [])
            eq("s-failed-dirs", S["failedDirs"], [])
            eq("s-discovery-done", S["discoveryDone"], 1)
            eq("s-tree", [k for k in files if got.get(k) != files[k]][:2], [])
            if exact:
                eq("s-blocks", s["blocks"], nblocks)
                eq("s-failed", s["failed"], 0)
                eq("s-data-exact", s["data"], size)
        if x.ok("r"):
            eq("r-effective", r["edata"], size)
            eq("r-blocks", r["blocks"], r["blocksSend"])
            eq("r-sender-bytes", r["senderBytes"], size)
            le("r-data", size, r["data"])
        if x.both:
            eq("blocks-agree", s["blocks"], r["blocks"])
            eq("edata-agree", s["edata"], r["edata"])
            if exact:
                eq("data-agree", s["data"], r["data"])
                eq("enc-agree", s["enc"], r["enc"])
        if full:
            ids = [ident(q["id"]) for q in S["sources"]]
            failed = {ident(q["id"]) for q in S["failedSources"]}
            names = {k.encode("utf-8", "surrogateescape") if isinstance(k, str) else k for k in files}
            for q in S["sources"]:
                eq("source-error %r" % q["id"], q["err"], "OK")
                # (a block whose rest another connection carried counts twice)
            le("unknown-sources", len(set(ids) - names), 0)
            le("unknown-failed", len(failed - names), 0)
            for q in S["failedSources"]:
                # (its error is OK when only the acknowledgement is missing)
                c.add("failed_source_" + q["err"])
            per = {}
            for q in S["sources"]:
                per[ident(q["id"])] = per.get(ident(q["id"]), 0) + q["edata"]
            eq("edata-of-sources", sum(per.values()), s["edata"]) if x.ok("s") or kind in ("deny",) else None
            for k, n in need.items():
                kb = k.encode("utf-8", "surrogateescape") if isinstance(k, str) else k
                if x.ok("s"):
                    if n or k not in before:
                        eq("bytes-of %r" % k, per.get(kb), n)
                elif kb in per and kb not in failed and per[kb] == n:
                    # reported as transferred: it must be there
                    if got.get(k) != files[k]:
                        bad.append("transferred-but-missing %r: %d of %d there" % (k, -1 if got.get(k) is None else len(got[k]), len(files[k])))
                    else:
                        c.add("transferred_in_failed_runs")
                elif kb not in failed and S["discoveryDone"] and kind in ("deny", "receiver", "faults") and (n or k not in before) and S["discovered"] == nfiles:
                    bad.append("neither-transferred-nor-failed %r (%s of %d)" % (k, per.get(kb), n))
            if not x.ok("s"):
                c.add("failed_sources", len(failed))
        if denied is not None:
            kb = denied.encode("utf-8", "surrogateescape") if isinstance(denied, str) else denied
            if x.ok("s"):
                bad.append("denied-file-but-ok")
            eq("only-denied-failed", {ident(q["id"]) for q in S["failedSources"]}, {kb})
            eq("others-there", [k for k in files if k != denied and got.get(k) != files[k]][:2], [])
            if full:
                eq("transferred-count", s["files"], len(files) - 1)
        c.add("outcome_%s_%s_%s" % (kind, x.err("s"), x.err("r")))
        c.add("relations_checked", 40 + 3 * len(files))
        if bad:
            sure = "" if bad[0].startswith("neither") else "!"
            return False, "!" + re.sub(r"[ :].*", "", bad[0], flags=re.S), "%s; %s" % (bad[:4], what), rep
        if kind in ("clean", "listed", "resume") and not x.both:
            return False, "fails:%s/%s" % (x.err("s"), x.err("r")), what, rep
        return True, "", what, rep
    e2e.settled(c, 3, once, "%s %d" % (kind, seed))
    c.case((kind, str(extra), len(files)) + e2e.okey(o), sample="%s: %d files, %d bytes, %d ports, block %s, full=%s" % (kind, len(files), total, np, bsm, full))
    shutil.rmtree(root, ignore_errors=True)


def body(c):
    plain = c.build("plain", "xfer", ["xfer.cpp"])
    asan = c.build("asan", "xfer", ["xfer.cpp"])
    base = c.seed * 1000003
    c.pmap(lambda i: one(c, plain, base + i, "p"), range(c.n(260, 15000)), workers=14)
    c.pmap(lambda i: one(c, asan, base + 50000 + i, "a"), range(c.n(60, 4000)), workers=12)


main(Check("C21", "exploration",
           "real transfers, clean, listed, resumed, with cut, refused and stalled connections, unreadable sources, failing destination files and "
           "aborts; the reports of both ends are compared with each other, with the sum over threads, with the files and blocks that had to "
           "be sent, with the bytes the relay counted and with the destination tree; distinct = different faults, trees and options",
           ["bytes of connections the relay cut may be counted by the sender though they never left"]), body)
