import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "tools"))
from vlib import *
import e2e

FAST = [("b.read_timeout_millis", 2000), ("b.write_timeout_millis", 2000), ("r.max_accept_retries", 40)]
HIDE = ["s.block_size_mbytes", "r.overwrite", "r.disable_preallocation", "r.fsync", "b.num_ports"]


def config(rng, tree):
    o = [x for x in e2e.rand_opts(rng) if x[0] not in HIDE]
    o += [("b.num_ports", rng.choice([1, 2, 3, 8])), ("b.enable_download_resumption", "true")]
    if tree:
        o += [("r.resume_using_dir_tree", "true"), ("r.disable_preallocation", "true"), ("s.block_size_mbytes", -1)]
    else:
        o += [("s.block_size_mbytes", rng.choice([-1, 0.02, 0.0625, 1]))]
        if rng.random() < .3:
            o.append(("r.disable_preallocation", "true"))
        if rng.random() < .3:
            o.append(("r.enable_transfer_log_compaction", "true"))
    return o + FAST


def extras(rng, files):
    """files of the destination only, some with names close to those of the source"""
    out = {}
    for i in range(rng.choice([1, 2, 5, 40])):
        k = rng.random()
        if k < .3 and files:
            n = rng.choice(sorted(files)) + rng.choice(["~", ".bak", "0", " ", "."])
        elif k < .5:
            n = "gone/deep/er/x%d" % i
        elif k < .6:
            n = ".hid%d" % i
        elif k < .7:
            n = rng.choice(e2e.ODD) + "_%d" % i
        elif k < .8:
            n = "wdt.log%d" % i
        else:
            n = "zz%d" % i
        if n in files or any(f.startswith(n + "/") or n.startswith(f + "/") for f in files):
            continue
        out[n] = rng.randbytes(rng.choice([0, 1, 100, rng.randrange(50000)]))
    return out


def result(c, x, rep):
    if x.res.crash():
        return False, "!crash:" + x.res.crash(), x.res.text[-1500:], rep
    if not x.d:
        return False, "no-result", "rc=%s timeout=%s %s" % (x.res.rc, x.res.timed_out, x.res.text[-300:]), rep
    return None


def bytree(c, binary, seed, cfg):
    """the destination is offered as it is found"""
    rng = random.Random("c16-%d" % seed)
    root = "%s/%st%d" % (c.tmp, cfg, seed)
    e2e.fresh(root)
    kind = rng.random()
    files = e2e.gen_tree(rng, root + "/src", maxtotal=300000, kind=rng.choice([None, None, "many", "deep", "empty"]))
    o = config(rng, True)
    who = rng.choice(["b", "b", "b", "b", "s", "r", ""])
    if who:
        o.append((who + ".delete_extra_files", "true"))
    extra = extras(rng, files)
    have = dict(extra)
    for k in sorted(files):
        r = rng.random()
        if r < .4:
            have[k] = files[k]
        elif r < .5:
            have[k] = files[k][:rng.randrange(len(files[k]) + 1)]
        elif r < .55:
            have[k] = files[k] + b"more"
    # the tree is only trusted with a log that does not say otherwise
    mode = rng.choice(["plain", "plain", "deny", "deny", "abort", "abort", "faults", "faults"])
    env, rules, acts, denied = {}, [], [], set()
    dirs = sorted({k.rsplit("/", 1)[0] for k in files if "/" in k} - {""})
    if mode == "deny":
        k = rng.random()
        if k < .6 and dirs:
            d = rng.choice(dirs)
            denied = {f for f in files if f.startswith(d + "/")}
            env = {"FIO_DENY": root + "/src/" + d}
        elif k < .75:
            denied = set(files)
            env = {"FIO_DENY": root + "/src"}
        elif files:
            f = rng.choice(sorted(files))
            denied = {f}
            env = {"FIO_DENY": root + "/src/" + f}
        if ":" in env.get("FIO_DENY", ""):
            env, denied = {}, set()
    if mode == "abort":
        acts = ["%s:abort:%s" % (rng.choice("ssr"), rng.choice(["%d" % rng.randrange(1, 60), "b%d" % rng.randrange(1, 3000)]))]
        env = {"FIO_SLOWDIR": str(rng.choice([0, 1000, 5000, 20000]))}
    if mode == "faults":
        np = e2e.odict(o)["b.num_ports"]
        for k in range(rng.choice([1, 2, 3])):
            rules.append("%d:%d:%s:%d:%s" % (rng.randrange(np), rng.choice([0, 0, 1]), rng.choice("sssr"),
                                            rng.choice([rng.randrange(500), rng.randrange(50000)]), rng.choice(["rst", "fin"])))
    if env:
        env.update({"LD_PRELOAD": core.build_faultio(), "FIO_ROOT": root + "/src"})
    args = [("src", root + "/src"), ("dst", root + "/dst")] + o + [("f", r) for r in rules] + [("act", a) for a in acts]
    if acts and any(":b" in a for a in acts):
        args.append(("proxy", 1))

    def once(i):
        e2e.fresh(root + "/dst")
        e2e.write_tree(root + "/dst", have)
        x = e2e.xfer(binary, args, env=env, timeout=120)
        rep = {"cfg": cfg, "seed": seed, "mode": mode, "args": args, "env": env, "have": sorted(have)[:200]}
        bad = result(c, x, rep)
        if bad:
            return bad
        got, _ = e2e.read_tree(root + "/dst")
        what = "tree mode %s delete by %r: %s" % (mode, who, x.brief())
        c.add("outcome_%s_%s_%s" % (mode, x.err("s"), x.err("r")))
        lost = [k for k in files if k in have and k not in got]
        if lost:
            return False, "!source-file-deleted", "%s %s%s" % (what, lost[:3], " (denied %d)" % len(denied) if denied else ""), rep
        left = [k for k in extra if k in got]
        c.add("extra_files", len(extra))
        c.add("extra_files_removed", len(extra) - len(left))
        # (the receiver's request is the one that counts: a sender of a resumption always offers)
        if who not in ("b", "r") and len(left) != len(extra):
            return False, "!deleted-without-request", "%s %s" % (what, sorted(set(extra) - set(left))[:3]), rep
        if denied and (x.ok("s") or x.err("s") is None):
            return False, "!undiscovered-but-ok", what, rep
        if x.ok("s") and x.ok("r"):
            if who == "b" and left:
                return False, "!extra-file-left", "%s %s" % (what, sorted(left)[:3]), rep
            # (what exists with the same size is taken as it is)
            d = e2e.diff(files, root + "/dst", extra_ok=extra if who != "b" else (), dirs=False)
            if d:
                return False, "!ok-but-wrong", "%s %s" % (what, d[:3]), rep
        elif mode == "plain":
            return False, "fails:%s/%s" % (x.err("s"), x.err("r")), what, rep
        return True, "", what, rep
    e2e.settled(c, 3, once, "tree seed %d" % seed)
    c.case(("t", mode, who, len(extra)) + e2e.okey(o), sample="tree %s: delete by %r, %d files, %d extra, %d there" %
           (mode, who, len(files), len(extra), len(have)))
    shutil.rmtree(root, ignore_errors=True)


def bylog(c, binary, seed, cfg):
    """the log lists what was received; the source changes between the runs"""
    rng = random.Random("c16l-%d" % seed)
    root = "%s/%sl%d" % (c.tmp, cfg, seed)
    e2e.fresh(root)
    files = e2e.gen_tree(rng, root + "/src", maxtotal=300000, kind=rng.choice([None, None, "many", "deep"]))
    o = config(rng, False)
    who = rng.choice(["b", "b", "b", "s", "r", ""])
    foreign = {"not/mine%d" % i: rng.randbytes(50) for i in range(rng.randrange(3))}
    e2e.write_tree(root + "/dst", foreign)
    o += [("recovery", "rec")]
    args = [("src", root + "/src"), ("dst", root + "/dst")] + o
    first = list(args)
    interrupted = rng.random() < .4
    if interrupted:
        first += [("proxy", 1), ("act", "%s:abort:b%d" % (rng.choice("sr"), rng.randrange(1, 600000)))]
    x = e2e.xfer(binary, first, timeout=120)
    rep0 = {"cfg": cfg, "seed": seed, "first": first}
    if x.res.crash():
        c.violation("crash:" + x.res.crash(), x.res.text[-1500:], rep0)
        return
    if not interrupted and not x.both:
        c.inconcl("first run of %d: %s" % (seed, x.brief()))
        return
    if any(k in foreign and v != foreign[k] for k, v in e2e.read_tree(root + "/dst")[0].items()):
        c.violation("foreign-file-changed", x.brief(), rep0)
    # several changes of the source, each followed by a run
    now, away = dict(files), {}
    for step in range(rng.choice([1, 1, 2, 3])):
        last = dict(now)
        for k in sorted(now):
            r = rng.random()
            if r < .25:
                away[k] = now.pop(k)
                os.unlink(root + "/src/" + k)
            elif r < .32:
                # (what a log lists is taken as unchanged: files grow at their end, or shrink to something else)
                n = len(now[k])
                now[k] = rng.randbytes(rng.randrange(n)) if n and rng.random() < .4 else now[k] + rng.randbytes(rng.randrange(1, 3000))
                e2e.write_tree(root + "/src", {k: now[k]})
        back = rng.random() < .3
        if back:
            for k in sorted(set(away) - set(now)):
                if rng.random() < .5:
                    now[k] = away[k]
                    e2e.write_tree(root + "/src", {k: now[k]})
        add = {"new%d_%d" % (step, i): rng.randbytes(rng.randrange(3000)) for i in range(rng.randrange(3))}
        e2e.write_tree(root + "/src", add)
        now.update(add)
        before, _ = e2e.read_tree(root + "/dst")
        run_args = args + ([(who + ".delete_extra_files", "true")] if who else [])
        rules = []
        if rng.random() < .3:
            np = e2e.odict(o)["b.num_ports"]
            rules = ["%d:0:s:%d:%s" % (rng.randrange(np), rng.randrange(2000), rng.choice(["rst", "fin"]))]

        def once(i):
            if i:
                e2e.fresh(root + "/dst")
                e2e.write_tree(root + "/dst", before)
            x = e2e.xfer(binary, run_args + [("f", r) for r in rules], timeout=120)
            rep = {"cfg": cfg, "seed": seed, "step": step, "args": run_args, "rules": rules, "first": first}
            bad = result(c, x, rep)
            if bad:
                return bad
            got, _ = e2e.read_tree(root + "/dst")
            what = "log, step %d, delete by %r%s: %s" % (step, who, " first interrupted" if interrupted else "", x.brief())
            c.add("outcome_log_%s_%s" % (x.err("s"), x.err("r")))
            lost = [k for k in now if k in before and k not in got]
            if lost:
                return False, "!source-file-deleted", "%s %s" % (what, lost[:3]), rep
            mine = [k for k in foreign if got.get(k) != foreign[k]]
            if mine:
                return False, "!file-of-nobody-deleted", "%s %s" % (what, mine[:3]), rep
            gone = [k for k in before if k not in got and k not in e2e.LOGS]
            c.add("extra_files_removed", len(gone))
            if who not in ("b", "r") and gone:
                return False, "!deleted-without-request", "%s %s" % (what, gone[:3]), rep
            if ".wdt.log" not in got:
                return False, "!log-lost", "%s" % what, rep
            if x.both:
                left = [k for k in got if k not in now and k not in foreign and k not in e2e.LOGS]
                if who == "b" and left:
                    return False, "!extra-file-left", "%s %s" % (what, left[:3]), rep
                want = {k: v for k, v in now.items()}
                d = e2e.diff(want, root + "/dst", extra_ok=[k for k in got if k not in now], dirs=False)
                if d:
                    return False, "!ok-but-wrong", "%s %s" % (what, d[:3]), rep
            elif not rules:
                return False, "fails:%s/%s" % (x.err("s"), x.err("r")), what, rep
            return True, "", what, rep
        if not e2e.settled(c, 3, once, "log seed %d step %d" % (seed, step)):
            break
        c.case(("l", seed, step, who) + e2e.okey(o), sample="log: delete by %r, %d files then %d" % (who, len(last), len(now)))
    shutil.rmtree(root, ignore_errors=True)


def body(c):
    plain = c.build("plain", "xfer", ["xfer.cpp"])
    asan = c.build("asan", "xfer", ["xfer.cpp"])
    base = c.seed * 1000003
    c.pmap(lambda i: bytree(c, plain, base + i, "p"), range(c.n(200, 10000)), workers=12)
    c.pmap(lambda i: bylog(c, asan, base + i, "a"), range(c.n(90, 4000)), workers=12)


main(Check("C16", "exploration",
           "resuming transfers with and without deletion into destinations with other files: offered from the destination tree "
           "(with unreadable source directories and files, aborts during slow discovery, connection faults) and from the log "
           "(sources that lose, change, regain and gain files between runs); every file of the destination accounted for; "
           "distinct = different modes, requests and options",
           ["with a log the receiver only offers what the log lists, so other files stay"]), body)
