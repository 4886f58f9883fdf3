import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "tools"))
from vlib import *
import e2e, wlog

FAST = [("b.read_timeout_millis", 1500), ("b.write_timeout_millis", 1500), ("b.connect_timeout_millis", 500),
        ("r.max_accept_retries", 30), ("r.accept_window_millis", 1500), ("s.max_retries", 4), ("s.max_transfer_retries", 2)]
DROP = ["s.block_size_mbytes", "r.disable_preallocation", "b.num_ports", "report_cb", "s.avg_mbytes_per_sec", "r.overwrite"]


def config(rng):
    o = [x for x in e2e.rand_opts(rng) if x[0] not in DROP]
    o += [("b.num_ports", rng.choice([1, 2, 3, 8])), ("b.enable_download_resumption", "true"), ("recovery", "rec"),
          ("r.resume_using_dir_tree", "true"), ("r.disable_preallocation", "true")]
    if rng.random() < .2:
        o.append(("r.overwrite", "true"))
    return o + FAST


def expected(files, before, trusted):
    """(what must be there afterwards, bytes to send)"""
    want, n = {}, 0
    for k, v in files.items():
        b = before.get(k) if trusted else None
        if b is None or len(b) > len(v):
            want[k] = v
            n += len(v)
        else:
            want[k] = b + v[len(b):]
            n += len(v) - len(b)
    for k, v in before.items():
        want.setdefault(k, v)
    return want, n


def between(files, before, got):
    """None, or what is wrong with an unfinished run that trusted the tree"""
    for k, v in files.items():
        b, g = before.get(k), got.get(k)
        if g == b or (b is None and g is None):
            continue
        if g is None:
            return "%r vanished" % k
        if b is not None and len(b) == len(v):
            return "%r changed, it was complete" % k
        full = b + v[len(b):] if b is not None and len(b) < len(v) else v
        if full[:len(g)] != g:
            bad = next(i for i in range(len(g)) if g[i:i + 1] != full[i:i + 1])
            return "%r (%s before, now %d of %d) differs at %d" % (k, b is not None and len(b), len(g), len(v), bad)
        if b is not None and len(b) < len(v) and len(g) < len(b):
            return "%r lost what it had: %d then %d" % (k, len(b), len(g))
    return None


def tree(rng, files):
    """a destination in every relation to the source"""
    have = {}
    p = [rng.random() for _ in range(5)]
    for k in sorted(files):
        v = files[k]
        r = rng.random() * sum(p)
        if r < p[0]:
            have[k] = v
        elif r < p[0] + p[1] and v:
            have[k] = v[:rng.choice([0, 1, len(v) - 1, len(v) // 2, rng.randrange(len(v))])]
        elif r < p[0] + p[1] + p[2]:
            have[k] = v + rng.randbytes(rng.choice([1, 100, 70000]))
            if rng.random() < .5:
                have[k] = rng.randbytes(len(have[k]))
        elif r < p[0] + p[1] + p[2] + p[3] / 3:
            have[k] = rng.randbytes(len(v))            # taken as it is
        elif r < p[0] + p[1] + p[2] + p[3] / 2 and v:
            have[k] = rng.randbytes(rng.randrange(len(v)))  # another beginning stays
    for i in range(rng.choice([0, 0, 1, 5])):
        have["only/here%d" % i] = rng.randbytes(rng.randrange(1000))
    return have


def history(c, binary, seed, cfg):
    rng = random.Random("c31-%d" % seed)
    root = "%s/%sh%d" % (c.tmp, cfg, seed)
    e2e.fresh(root)
    src, dst = root + "/src", root + "/dst"
    files = e2e.gen_tree(rng, src, maxtotal=500000, kind=rng.choice([None, None, "many", "big", "deep", "edges", "empty"]))
    total = sum(map(len, files.values()))
    o = config(rng)
    base = [("src", src), ("dst", dst)] + o
    have = tree(rng, files) if rng.random() < .8 else {}
    ports = e2e.odict(o)["b.num_ports"]
    nmut = 4 * len(files) + total // 30000 + 6
    def block():
        return ("s.block_size_mbytes", rng.choice([0.02, 0.0625]) if rng.random() < .15 else -1)
    steps = []
    for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
        k = rng.choice(["crash", "crash", "cut", "abort"])
        if k == "crash":
            par = "%d:%s" % (rng.randrange(1, nmut), rng.choice("bap"))
        elif k == "cut":
            par = "*:*:%s:%d:%s" % (rng.choice("sssr"), rng.randrange(total // ports + 600), rng.choice(["rst", "fin"]))
        else:
            par = "%s:abort:b%d" % (rng.choice("sr"), rng.randrange(total + 1000))
        steps.append((k, par, block()))
    steps.append(("", "", block()))
    # a connection lost now and then must not matter for the last run
    late = ["%d:0:s:%d:rst" % (rng.randrange(ports), rng.randrange(total // ports + 600))] if ports > 1 and rng.random() < .3 else []

    def once(i):
        e2e.fresh(dst)
        e2e.write_tree(dst, have)
        trusted, done = True, []
        for j, (kind, par, blk) in enumerate(steps):
            before, _ = e2e.read_tree(dst)
            before = {k: v for k, v in before.items() if k not in e2e.LOGS}
            env = {}
            args = base + [blk]
            if kind == "crash":
                env = {"LD_PRELOAD": core.build_faultio(), "FIO_ROOT": dst, "FIO_CRASH": par}
            elif kind == "cut":
                args = args + [("f", par)]
            elif kind == "abort":
                args = args + [("proxy", 1), ("act", par)]
            else:
                args = args + [("f", r) for r in late]
            x = e2e.xfer(binary, args, env=env, timeout=90)
            got, _ = e2e.read_tree(dst)
            got = {k: v for k, v in got.items() if k not in e2e.LOGS}
            done.append("%s %s%s: %s" % (kind, par, "" if blk[1] == -1 else " in blocks", x.brief()[:160]))
            what = "%d files, %d there; " % (len(files), len(have)) + "; ".join(done)
            rep = {"cfg": cfg, "seed": seed, "args": base, "steps": steps, "late": late}
            cr = x.res.crash()
            if cr and not (kind == "crash" and cr == "signal:9"):
                return False, "!crash:" + cr, x.res.text[-1500:] + what, rep
            if x.res.timed_out or (not x.d and not cr):
                return False, "no-result", "rc=%s timeout=%s %s" % (x.res.rc, x.res.timed_out, what), rep
            blocks = blk[1] != -1
            want, n = expected(files, before, trusted)
            trusts = trusted and not blocks
            c.add("run_%s_%s_%s" % (kind or "last", "trusted" if trusts else "untrusted", x.err("s") or "killed"))
            if x.ok("s") or x.ok("r"):
                if got != want:
                    k = next(k for k in sorted(set(got) | set(want)) if got.get(k) != want.get(k))
                    return False, "!ok-but-wrong", "%r: before %s source %s now %s bytes; %s" % (
                        k, k in before and len(before[k]), k in files and len(files[k]), k in got and len(got[k]), what), rep
            elif trusts:
                bad = between(files, before, got)
                if bad:
                    return False, "!left-wrong", "%s; %s" % (bad, what), rep
            if any(got.get(k) != v for k, v in before.items() if k not in files):
                return False, "!foreign-file-changed", what, rep
            if x.both:
                sent = x.rep("s")["summary"]["edata"]
                if sent != n:
                    return False, "!wrong-amount", "sent %d of %d, %d were missing; %s" % (sent, total, n, what), rep
                if not late and kind == "" and x.rep("s")["summary"]["data"] != n:
                    return False, "sent-more", "sent %d of %d, %d were missing; %s" % (x.rep("s")["summary"]["data"], total, n, what), rep
                c.add("bytes_not_sent_again", total - n)
            if x.ok("r"):
                trusted = True
            if x.both:
                pass
            elif kind == "":
                return False, "fails:%s/%s" % (x.err("s"), x.err("r")), what, rep
            elif not x.ok("r"):
                # it may or may not have come so far that the directory is unreliable, or reliable again
                log = b""
                if os.path.exists(dst + "/.wdt.log"):
                    with open(dst + "/.wdt.log", "rb") as f:
                        log = f.read()
                e = wlog.entries(log)
                if e and e[-1][1] == wlog.DIRINV:
                    if trusts:
                        return False, "!invalidated", what, rep
                    trusted = False
                elif trusted and blocks and got != before and got != want:
                    return False, "!unreliable-but-trusted", what, rep
                elif not trusted and e:
                    if got != want:
                        return False, "!reliable-again", what, rep
                    trusted = True
        return True, "", what, rep
    e2e.settled(c, 3, once, "history %d" % seed)
    rel = tuple(sum(1 for k in files if (0 if k not in have else 1 if len(have[k]) < len(files[k]) else 2 if len(have[k]) > len(files[k]) else 3) == z)
                for z in range(4))
    c.case((str(steps), rel) + e2e.okey(o), sample="%d files (missing %d, shorter %d, longer %d, same %d): %s" % (len(files), *rel, [s[:2] for s in steps]))
    shutil.rmtree(root, ignore_errors=True)


def body(c):
    plain = c.build("plain", "xfer", ["xfer.cpp"])
    asan = c.build("asan", "xfer", ["xfer.cpp"])
    base = c.seed * 1000003
    c.pmap(lambda i: history(c, plain, base + i, "p"), range(c.n(170, 12000)), workers=14)
    c.pmap(lambda i: history(c, asan, base + 50000 + i, "a"), range(c.n(60, 4000)), workers=12)


main(Check("C31", "exploration",
           "real transfers that resume from the destination tree: destinations with same, shorter (matching or not), longer, "
           "missing and foreign files, up to three interrupted runs (killed at a change to the destination, cut, aborted; some in "
           "block mode, which must make the tree untrusted) before the last; after every run each file is compared with what the "
           "rule makes of it and the bytes sent with what was missing; distinct = different histories, relations and options",
           ["preallocation is off in this mode, as the receiver demands"]), body)
