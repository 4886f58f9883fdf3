import sys, os, socket
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "tools"))
from vlib import *
import e2e

DROP = ["s.block_size_mbytes", "b.num_ports", "report_cb", "b.progress_report_interval_millis", "s.avg_mbytes_per_sec", "r.overwrite", "async"]
ports_lock = threading.Lock()
next_port = [0]


def free_ports(n, seed):
    """n consecutive ports nobody uses at the moment"""
    with ports_lock:
        for _ in range(400):
            p = 10000 + (seed * 97 + next_port[0] * 16) % 20000
            next_port[0] += 1
            ok = True
            for q in range(p, p + n):
                with socket.socket() as s:
                    try:
                        s.bind(("0.0.0.0", q))
                    except OSError:
                        ok = False
            if ok:
                return p
    return None


def go(c, cfg, *a, **k):
    """a run; memory that nothing refers to at the end is reported by the sanitizer"""
    if cfg == "a":
        k["env"] = {"ASAN_OPTIONS": SAN_ENV["ASAN_OPTIONS"].replace("detect_leaks=0", "detect_leaks=1")}
    x = e2e.xfer(*a, **k)
    if cfg == "a":
        if "LeakSanitizer has encountered a fatal error" in x.res.text:
            x.res.rc = 0            # not possible in this environment
            x.res.err = x.res.err.replace(b"LeakSanitizer", b"leak check")
            c.add("memory_leaks_not_checked")
        else:
            c.add("memory_leaks_checked")
    return x


def leaks(x):
    """what remained of a run in its process"""
    for d in x.j:
        if d["fd1"] > d["fd0"]:
            return "descriptors", "%d then %d: %s" % (d["fd0"], d["fd1"], d.get("fds"))
        if d["th1"] > d["th0"]:
            return "threads", "%d then %d" % (d["th0"], d["th1"])
    return None


def base_case(c, seed, cfg, kind):
    rng = random.Random("c22-%s-%d" % (kind, seed))
    root = "%s/%s%s%d" % (c.tmp, cfg, kind, seed)
    e2e.fresh(root)
    files = e2e.gen_tree(rng, root + "/src", maxtotal=rng.choice([20000, 300000, 1500000]),
                         kind=rng.choice([None, None, "many", "big", "deep", "empty"]))
    o = [x for x in e2e.rand_opts(rng) if x[0] not in DROP]
    np = rng.choice([1, 2, 3, 8])
    if rng.random() < .3:
        o += [("report_cb", 1), ("b.progress_report_interval_millis", rng.choice([20, 5000]))]
    if rng.random() < .4:
        o.append(("async", 1))
    rd, cn, ac = rng.choice([300, 700, 1500]), rng.choice([200, 600]), rng.choice([20, 50, 100])
    mr, mt, acc, ar = rng.choice([2, 4]), rng.choice([1, 2]), rng.choice([50, 100]), rng.choice([10, 25])
    o += [("b.num_ports", np), ("s.block_size_mbytes", rng.choice([-1, 0.01, 0.0625, 1])), ("b.read_timeout_millis", rd), ("b.write_timeout_millis", rd),
          ("b.connect_timeout_millis", cn), ("b.abort_check_interval_millis", ac), ("s.max_retries", mr), ("s.max_transfer_retries", mt),
          ("r.accept_timeout_millis", acc), ("r.max_accept_retries", ar), ("r.accept_window_millis", 1000)]
    if rng.random() < .25:
        o += [("b.enable_download_resumption", "true"), ("recovery", "rec")]
    # how long an end may go on after it lost its peer
    limit_s = (mt + 1) * (2 * rd + mr * (cn + 60)) + 1500
    limit_r = max(2 * rd + 1000, acc * ar) + rd + 2500
    lim = {"s": 3 * limit_s + 4000, "r": 2 * limit_r + limit_s + 4000}
    return rng, root, files, o, np, lim, dict(rd=rd, cn=cn, ac=ac, acc=acc, ar=ar)


def judge(c, x, files, dst, lim, what, rep, noreps=False):
    cr = x.res.crash()
    if cr:
        return False, "!crash:" + cr, x.res.text[-2500:], rep
    if x.res.timed_out or not x.d:
        return False, "no-end", "rc=%s timeout=%s %s" % (x.res.rc, x.res.timed_out, what), rep
    lk = leaks(x)
    if lk:
        return False, "leak:" + lk[0], "%s; %s" % (lk[1], what), rep
    d = x.j[0]
    for k in "sr":
        if d[k + "_ms"] > lim[k]:
            return False, "late-end-%s" % k, "%s ended after %d ms, allowed %d: %s" % (k, d[k + "_ms"], lim[k], what), rep
    return None


def second(c, x, dst, files, what, rep):
    """the transfer that followed at once in the same process"""
    if len(x.j) < 2:
        return False, "no-second", what, rep
    d = x.j[1]
    e = [d[k]["summary"]["err"] if d.get(k) else d.get("rinit") for k in "sr"]
    if e != ["OK", "OK"]:
        return False, "second-fails:%s/%s" % tuple(e), what, rep
    dd = e2e.diff(files, dst)
    dd = [z for z in dd if ".wdt.log" not in z]
    if dd:
        return False, "!second-wrong", "%s %s" % (dd[:3], what), rep
    c.add("second_transfers_ok")
    return None


def aborts(c, binary, seed, cfg):
    rng, root, files, o, np, lim, t = base_case(c, seed, cfg, "abort")
    total = sum(map(len, files.values()))
    who = rng.choice("sr")
    ext = rng.random() < .4
    again = rng.random() < .5
    extra = []
    if rng.random() < .3 and np < 8:
        # slow enough to abort in the middle
        extra.append(("b.avg_mbytes_per_sec", rng.choice([1, 5])))
        extra += [("b.buffer_size", 16384), ("chunk", 3000)]
    elif rng.random() < .5:
        extra += [("chunk", rng.choice([200, 2000])), ("chunk_us", rng.choice([50, 500]))]
    waits = rng.random()
    if waits < .2:
        extra.append(("f", "*:*:%s:%d:black" % (rng.choice("sr"), rng.randrange(total // np + 500))))
        at = str(rng.randrange(50, 1200))
    elif waits < .35:
        at = str(rng.randrange(1, 900))
        extra.append(("delay_start", 3000) if who == "r" else ("f", "*:*:s:0:refuse"))
    else:
        at = "b%d" % rng.randrange(total + np * 300 + 1) if rng.random() < .6 else str(rng.choice([0, 0, 1, 3, rng.randrange(100), rng.randrange(700)]))
    act = ("act", "%s:%s:%s" % (who, "extabort" if ext else "abort", at))
    if ext:
        extra.append(("extabort", 1))
    if at.startswith("b") or any(k == "f" for k, _ in extra):
        extra.append(("proxy", 1))
    if again:
        extra += [("reps", 2), ("fault0", 1), ("samedst", 1), ("r.overwrite", "true")]
        p = free_ports(np, seed) if rng.random() < .7 else None
        if p:
            extra += [("anyport", 0), ("b.start_port", p), ("b.static_ports", "true")]
    dst = root + "/dst"
    args = [("src", root + "/src"), ("dst", dst)] + o + extra + [act]

    def once(i):
        e2e.fresh(dst)
        x = go(c, cfg, binary, args, timeout=100)
        what = "%s of %s at %s: %s" % ("checker" if ext else "abort", who, at, [z.get("s") and x.brief() for z in x.j][:1])
        rep = {"cfg": cfg, "seed": seed, "args": args}
        bad = judge(c, x, files, dst, lim, what, rep)
        if bad:
            return bad
        d = x.j[0]
        if not d.get("s") or not d.get("r"):
            return False, "no-report", "rinit=%s %s" % (d.get("rinit"), what), rep
        es, er = d["s"]["summary"]["err"], d["r"]["summary"]["err"]
        c.add("outcome_%s_%s" % (es, er))
        act_at, end = d["act_ms"], d[who + "_ms"]
        if "OK" in (es, er) and not again:
            dd = [z for z in e2e.diff(files, dst) if ".wdt.log" not in z]
            if dd:
                return False, "!ok-but-incomplete", "%s %s" % (dd[:3], what), rep
        if 0 <= act_at < end:
            took = end - act_at
            c.add("aborted_in_time")
            with c.lock:
                c.extra["slowest_abort_ms"] = max(c.extra.get("slowest_abort_ms", 0), took)
            if took > 2500 + t["ac"]:
                return False, "abort-ignored", "ended %d ms after the abort: %s" % (took, what), rep
            if (es if who == "s" else er) == "OK" and took > 700:
                return False, "ok-after-abort", "OK %d ms after the abort: %s" % (took, what), rep
        else:
            c.add("abort_after_the_end")
        return (again and second(c, x, dst, files, what, rep)) or (True, "", what, rep)
    e2e.settled(c, 4, once, "abort %d" % seed)
    c.case(("abort", who, ext, at, again) + e2e.okey(o), sample="abort of %s (%s) at %s, again=%s" % (who, "checker" if ext else "call", at, again))
    shutil.rmtree(root, ignore_errors=True)


def stalls(c, binary, seed, cfg):
    """the peer stalls, breaks off or refuses on all connections"""
    rng, root, files, o, np, lim, t = base_case(c, seed, cfg, "stall")
    total = sum(map(len, files.values()))
    how = rng.choice(["black", "black", "rst", "fin", "refuse"])
    d = rng.choice("sr")
    pos = 0 if rng.random() < .15 else rng.randrange(total // np + 700) if d == "s" else rng.randrange(500)
    if d == "s" and pos > 290:
        pos = max(pos, total // np // 3)        # few connections make progress before they are lost
    conns = "*" if rng.random() < .6 else str(rng.randrange(2))
    extra = [("f", "*:%s:%s:%d:%s" % (conns, d, pos, how))]
    again = rng.random() < .4
    if again:
        extra += [("reps", 2), ("fault0", 1), ("samedst", 1), ("r.overwrite", "true"), ("proxy", 1)]
        p = free_ports(np, seed) if rng.random() < .7 else None
        if p:
            extra += [("anyport", 0), ("b.start_port", p), ("b.static_ports", "true")]
    dst = root + "/dst"
    args = [("src", root + "/src"), ("dst", dst)] + o + extra

    def once(i):
        e2e.fresh(dst)
        x = go(c, cfg, binary, args, timeout=100)
        what = "%s: %s" % (extra[0][1], x.brief())
        rep = {"cfg": cfg, "seed": seed, "args": args}
        bad = judge(c, x, files, dst, lim, what, rep)
        if bad:
            return bad
        d0 = x.j[0]
        es, er = [d0[k]["summary"]["err"] if d0.get(k) else None for k in "sr"]
        c.add("outcome_%s_%s" % (es, er))
        if "OK" in (es, er) and not again:
            dd = [z for z in e2e.diff(files, dst) if ".wdt.log" not in z]
            if dd:
                return False, "!ok-but-incomplete", "%s %s" % (dd[:3], what), rep
        return (again and second(c, x, dst, files, what, rep)) or (True, "", what, rep)
    e2e.settled(c, 4, once, "stall %d" % seed)
    c.case(("stall", how, d, pos, again) + e2e.okey(o), sample="%s np=%d again=%s" % (extra[0][1], np, again))
    shutil.rmtree(root, ignore_errors=True)


def alone(c, binary, seed, cfg):
    """the peer never appears, or appears late"""
    rng, root, files, o, np, lim, t = base_case(c, seed, cfg, "alone")
    dst = root + "/dst"
    kind = rng.choice(["receiver", "receiver", "sender-closed", "sender-silent", "late"])
    wait = t["acc"] * t["ar"]
    srv = []

    def once(i):
        e2e.fresh(dst)
        what = "%s alone, waiting %d ms" % (kind, wait)
        if kind == "receiver":
            args = [("role", "recv"), ("dst", dst)] + o
            x = go(c, cfg, binary, args, timeout=60)
        elif kind == "late":
            # well before the receiver gives up
            args = [("src", root + "/src"), ("dst", dst)] + o + [("delay_start", wait // 3)]
            x = go(c, cfg, binary, args, timeout=60)
        else:
            for s in srv:
                s.close()
            del srv[:]
            prts = []
            for _ in range(np):
                s = socket.socket()
                s.bind(("127.0.0.1", 0))
                prts.append(s.getsockname()[1])
                if kind == "sender-silent":
                    s.listen(50)
                    srv.append(s)
                else:
                    s.close()
            enc = e2e.odict(o).get("b.encryption_type", "none")
            key = {"aes128ctr": 2, "aes128gcm": 3}.get(enc)
            url = "wdt://127.0.0.1?id=x&recpv=32&ports=%s" % ",".join(map(str, prts))
            args = [("role", "send"), ("src", root + "/src"), ("url", url)] + o
            x = go(c, cfg, binary, args, timeout=100)
        rep = {"cfg": cfg, "seed": seed, "kind": kind, "args": args}
        cr = x.res.crash()
        if cr:
            return False, "!crash:" + cr, x.res.text[-2500:], rep
        if x.res.timed_out or not x.d:
            return False, "no-end", "rc=%s timeout=%s %s" % (x.res.rc, x.res.timed_out, what), rep
        lk = leaks(x)
        if lk:
            return False, "leak:" + lk[0], "%s; %s" % (lk[1], what), rep
        c.add("alone_" + kind)
        if kind == "receiver":
            if x.ok("r") or not x.rep("r"):
                return False, "!ok-without-peer", what + x.brief(), rep
            ms = x.d["r_ms"]
            if ms < wait * .7:
                return False, "gave-up-early", "%d ms, %s" % (ms, what), rep
            if ms > wait * 2 + 2500:
                return False, "late-end-r", "%d ms, %s" % (ms, what), rep
        elif kind == "late":
            if not x.both or e2e.diff(files, dst) and not any(".wdt.log" in z for z in e2e.diff(files, dst)):
                return False, "late-sender-fails:%s/%s" % (x.err("s"), x.err("r")), what + x.brief(), rep
        else:
            if x.ok("s") or not x.rep("s"):
                return False, "!ok-without-peer", what + x.brief(), rep
            if x.d["s_ms"] > lim["s"]:
                return False, "late-end-s", "%d ms, allowed %d, %s" % (x.d["s_ms"], lim["s"], what), rep
        return True, "", what, rep
    e2e.settled(c, 4, once, "alone %d" % seed)
    for s in srv:
        s.close()
    c.case((kind, wait) + e2e.okey(o), sample="%s, accepting %d ms" % (kind, wait))
    shutil.rmtree(root, ignore_errors=True)


def killed(c, binary, seed, cfg):
    """one of two processes is killed; the other ends"""
    rng, root, files, o, np, lim, t = base_case(c, seed, cfg, "kill")
    dst = root + "/dst"
    who = rng.choice("sr")
    slow = [("b.avg_mbytes_per_sec", rng.choice([1, 3]))] if rng.random() < .6 else []
    at = rng.choice([0.0, 0.02, 0.1, rng.random() * .5])

    def once(i):
        e2e.fresh(dst)
        r, s = e2e.pair(binary, [("role", "recv"), ("dst", dst)] + o + slow, [("role", "send"), ("src", root + "/src")] + o + slow,
                        kill=(who, at), timeout=80)
        rep = {"cfg": cfg, "seed": seed, "kill": [who, at], "o": o + slow}
        if s is None:
            return False, "no-url", r.res.text[-500:], rep
        y, k = (s, "s") if who == "r" else (r, "r")
        what = "%s killed after %.2f s: %s" % (who, at, y.brief())
        cr = y.res.crash()
        if cr:
            return False, "!crash:" + cr, y.res.text[-2500:], rep
        if y.res.timed_out or not y.d:
            return False, "no-end", "rc=%s timeout=%s %s" % (y.res.rc, y.res.timed_out, what), rep
        lk = leaks(y)
        if lk:
            return False, "leak:" + lk[0], "%s; %s" % (lk[1], what), rep
        if y.d[k + "_ms"] > lim[k] + at * 1000:
            return False, "late-end-" + k, "%d ms, allowed %d, %s" % (y.d[k + "_ms"], lim[k], what), rep
        if y.ok(k) and [z for z in e2e.diff(files, dst) if ".wdt.log" not in z]:
            return False, "!ok-but-incomplete", what, rep
        c.add("survivor_%s_%s" % (k, y.err(k)))
        return True, "", what, rep
    e2e.settled(c, 4, once, "kill %d" % seed)
    c.case(("kill", who, at) + e2e.okey(o), sample="%s killed after %.2f s" % (who, at))
    shutil.rmtree(root, ignore_errors=True)


def body(c):
    plain = c.build("plain", "xfer", ["xfer.cpp"])
    asan = c.build("asan", "xfer", ["xfer.cpp"])
    base = c.seed * 1000003
    jobs = []
    for f, q, th in ((aborts, 100, 8000), (stalls, 60, 5000), (alone, 36, 3000), (killed, 30, 3000)):
        n = c.n(q, th)
        jobs += [(f, plain, base + i, "p") for i in range(n)] + [(f, asan, base + 50000 + i, "a") for i in range(n // 3)]
    random.Random(c.seed).shuffle(jobs)
    c.pmap(lambda j: j[0](c, *j[1:]), jobs, workers=20)


main(Check("C22", "exploration",
           "transfers aborted at times and byte counts through the call and the checker, with all connections stalled, cut or refused, "
           "with a peer that is killed, never appears, never answers or comes late; monitors: time to the end, outcome against the tree, "
           "descriptors and threads of the process before and after, and a second transfer at once on the same ports and directory; "
           "distinct = different fault, moment and options",
           ["time limits carry seconds of slack and must be exceeded in four runs"]), body)
