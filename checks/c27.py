import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "tools"))
from vlib import *
from collections import defaultdict, Counter
import struct, tempfile, math

MB = 1024 * 1024


def stats_bytes(recs):
    return b"".join(bytes(p) + struct.pack("<I", n) for p, n in recs)


def gen_stats(r):
    """Statistics of various shapes; returns [((a, b), count)]."""
    kind = r.randrange(8)
    al = sorted(set(r.randbytes(r.choice([2, 3, 5, 12, 40]))) | {r.choice([0, 127, 128, 255])})
    d = {}
    if kind <= 2:      # chainable: every byte has successors
        for a in al:
            for b in r.sample(al, r.randint(1, min(len(al), 6))):
                d[(a, b)] = r.choice([1, 1, 2, 5, 20, 100])
    elif kind == 3:    # dead ends
        for a in al[:max(1, len(al) // 2)]:
            for b in r.sample(al, r.randint(1, min(len(al), 5))):
                d[(a, b)] = r.choice([1, 2, 7, 30])
    elif kind == 4:    # one pair only
        d[(al[0], al[-1])] = r.choice([1, 3])
    elif kind == 5:    # heavily skewed
        for a in al:
            bs = r.sample(al, min(len(al), 4))
            for i, b in enumerate(bs):
                d[(a, b)] = [1000, 100, 10, 1][i]
    elif kind == 6:    # all bytes
        for a in range(256):
            for _ in range(r.randint(1, 3)):
                d[(a, r.randrange(256))] = r.randint(1, 5)
    else:              # zero counts among real ones
        for a in al:
            for b in al:
                d[(a, b)] = r.choice([0, 0, 3, 8])
            d[(a, al[0])] = 2
    recs = list(d.items())
    r.shuffle(recs)
    if r.random() < .5:
        recs.sort(key=lambda x: -x[1])
    return recs


def check_region(reg, succ, firsts, allb, start, reset):
    """reg: bytes of one thread.  None or an error."""
    pos = 0
    if start:
        if reg[:len(start)] != start[:len(reg)]:
            return "region starts with %r, not with the start string %r" % (reg[:12], start)
        pos = min(len(start), len(reg)) - 1
        if len(start) > len(reg):
            return None
        if pos >= 0 and start[-1] in succ:
            pass
    else:
        if reg[0] not in firsts:
            return "first byte %02x starts no pair of the statistics" % reg[0]
    rs = succ.get(reset) if reset is not None else None
    for i in range(pos, len(reg) - 1):
        x, y = reg[i], reg[i + 1]
        s = succ.get(x)
        if s:
            if y not in s:
                return "pair %02x%02x at offset %d of the region does not occur in the statistics" % (x, y, i)
        elif rs and not (start and i == pos):
            if y not in rs:
                return "after dead end %02x the byte %02x is no successor of the reset character" % (x, y)
        elif y not in allb:
            return "byte %02x does not occur in the statistics" % y
    return None


def body(c):
    exe = {"asan": core.build_bench("asan", "files"), "plain": core.build_bench("plain", "files"),
           "tsan": core.build_bench("tsan", "files")}
    fio = core.build_faultio()

    def gen(cfg, d, stats, flags, env=None, timeout=180):
        cmd = [exe[cfg], "-directory", d] + flags
        return run(cmd, stdin=stats, env=env, timeout=timeout)

    def case(k):
        import random as _r
        r = _r.Random("c27-%d-%d" % (c.seed, k))
        recs = gen_stats(r)
        stats = stats_bytes(recs)
        succ = defaultdict(dict)
        for (a, b), n in recs:
            if n:
                succ[a][b] = n
        firsts = set(succ)
        allb = firsts | {b for a in succ for b in succ[a]}
        nt = r.choice([1, 1, 2, 3, 4, 7, 8, 16, 33])
        per = r.choice([1, 2, 3, 10, r.randint(1, 300), r.randint(300, 20000)])
        total = per * nt + r.randrange(nt)
        block = r.choice([1, 2, 7, 16, 100, 1024, 16384, per, per + 1, max(1, per - 1), 10 ** 6])
        start = b""
        reset = None
        flags = ["-num_threads", str(nt), "-gen_size_mb", repr(total / MB), "-gen_block_size", str(block)]
        if r.random() < .4:
            n = r.choice([1, 2, 3, 9])
            start = bytes(r.choice(sorted(b for b in (allb | set(b"azq")) if b and b != 0) or [97]) for _ in range(n))
            if len(start) > min(per, block) or start[:1] == b"-":
                start = b""
        if r.random() < .4 and firsts - {0}:
            reset = r.choice(sorted((firsts if r.random() < .7 else set(range(1, 256))) - {0}))
        fl = [x.encode() for x in flags]
        if start:
            fl += [b"-start=" + start]
        if reset is not None:
            fl += [b"-reset_char=" + bytes([reset])]
        name = r.choice(["gen.data", "x", "some name.bin"])
        fl += [b"-filename=" + name.encode()] if name != "gen.data" else []
        cfg = r.choice(["asan", "asan", "asan", "plain", "tsan"])
        d = tempfile.mkdtemp(dir=c.tmp)
        p = os.path.join(d, name)
        pre = r.random() < .3
        if pre:     # an older output is there already
            open(p, "wb").write(b"\x01OLD" * r.randint(1, 8000))
        use_file = r.random() < .4
        if use_file:
            sp = os.path.join(c.tmp, "st%d" % k)
            open(sp, "wb").write(stats)
            fl += [b"-stats_source=" + sp.encode()]
        tr = os.path.join(c.tmp, "tr%d" % k)
        env = {"LD_PRELOAD": fio, "FIO_ROOT": d, "FIO_TRACE": tr} if cfg != "tsan" else None
        what = "threads=%d size=%d block=%d start=%r reset=%r old=%s cfg=%s stats=%d" % (
            nt, total, block, start, reset, pre, cfg, len(recs))
        rep = {"flags": [repr(x) for x in fl], "stats_hex": stats.hex()[:6000], "what": what}
        res = gen(cfg, d, b"" if use_file else stats, fl, env)
        c.case(key=hashlib.sha1(stats + b"|".join(fl)).hexdigest(), sample=what)
        if res.timed_out:
            c.inconcl(what); return
        if res.rc or res.crash():
            c.violation("crash:gen:%s" % (res.crash() or "exit%d" % res.rc), what + res.text[-900:], rep); return
        files = sorted(os.listdir(d))
        if files != [name]:
            c.violation("files", "%s: directory has %r" % (what, files), rep); return
        data = open(p, "rb").read()
        if len(data) != per * nt:
            c.violation("size", "%s: %d bytes, want %d" % (what, len(data), per * nt), rep); return
        if os.path.exists(tr):
            iv = []
            for line in open(tr, errors="replace"):
                f = line.split("\t")
                if f[0] in ("pwrite", "write"):
                    iv.append((int(f[2]), int(f[4]), f[5]))
            os.unlink(tr)
            iv.sort()
            at = 0
            owner = {}
            for off, n, tid in iv:
                if off != at:
                    c.violation("coverage", "%s: writes leave or overlap at %d (next write at %d)" % (what, at, off), rep)
                    break
                owner.setdefault(off // per, set()).add(tid)
                if (off + n - 1) // per != off // per:
                    c.violation("region", "%s: a write at %d of %d bytes crosses a thread's part" % (what, off, n), rep)
                at = off + n
            c.add("writes_observed", len(iv))
        for t in range(nt):
            e = check_region(data[t * per:(t + 1) * per], succ, firsts, allb, start, reset)
            if e:
                c.violation("content:" + re.sub(r"\b[0-9a-f]{2,4}\b|\d+|'.*?'", "N", e)[:50],
                            "%s thread %d: %s" % (what, t, e), rep)
                break
        c.add("pairs_observed", max(0, len(data) - nt))
        if r.random() < .35:   # same flags, same bytes
            d2 = tempfile.mkdtemp(dir=c.tmp)
            r2 = gen(r.choice(["asan", "plain"]), d2, b"" if use_file else stats, fl)
            p2 = os.path.join(d2, name)
            if r2.rc == 0 and os.path.exists(p2) and open(p2, "rb").read() != data:
                c.violation("determinism", what + ": a second run gives other bytes", rep)
            c.add("determinism_pairs")
            shutil.rmtree(d2, ignore_errors=True)
        shutil.rmtree(d, ignore_errors=True)
    c.pmap(case, range(c.n(220, 4000)))

    # pairs are drawn in proportion to their counts
    def prop(k):
        import random as _r
        r = _r.Random("c27p-%d-%d" % (c.seed, k))
        al = sorted(r.sample(range(256), r.choice([2, 3, 4, 6])))
        recs = []
        for a in al:
            for b in al:
                n = r.choice([1, 2, 5, 10, 40, 200])
                recs.append(((a, b), n))
        r.shuffle(recs)
        d = tempfile.mkdtemp(dir=c.tmp)
        nt, per = 4, 400000
        res = gen("plain", d, stats_bytes(recs), ["-num_threads", str(nt), "-gen_size_mb", repr(nt * per / MB)])
        what = "proportions %r" % (recs,)
        if res.timed_out:
            c.inconcl(what); return
        if res.rc:
            c.violation("crash:gen:exit%d" % res.rc, what + res.text[-500:]); return
        data = open(os.path.join(d, "gen.data"), "rb").read()
        shutil.rmtree(d, ignore_errors=True)
        cnt = Counter()
        for t in range(nt):
            g = data[t * per:(t + 1) * per]
            cnt.update(zip(g, g[1:]))
        w = dict(recs)
        for a in al:
            obs = sum(cnt[(a, b)] for b in al)
            tot = sum(w[(a, b)] for b in al)
            if obs < 2000:
                continue
            worst = max(abs(cnt[(a, b)] - obs * w[(a, b)] / tot) / math.sqrt(obs * w[(a, b)] / tot + 1) for b in al)
            c.add("distributions_checked")
            with c.lock:
                c.extra["worst_deviation_sigmas"] = max(c.extra.get("worst_deviation_sigmas", 0), round(worst, 2))
            # the generator is a cheap LCG: allow 8 sigma plus 2% of the mass
            for b in al:
                exp = obs * w[(a, b)] / tot
                if abs(cnt[(a, b)] - exp) > 8 * math.sqrt(exp + 1) + .02 * obs:
                    c.violation("proportion", "%s: %02x%02x occurs %d of %d times, counts say %.0f" %
                                (what, a, b, cnt[(a, b)], obs, exp), {"stats": recs})
                    return
        c.case(key=("prop", k))
    c.pmap(prop, range(c.n(8, 60)))

    good = stats_bytes([((97, 98), 3), ((98, 97), 2), ((98, 98), 1)])

    # failing writes and unusable input are reported by the exit status
    def bad(t):
        name, fl, env, stats, setup = t
        d = tempfile.mkdtemp(dir=c.tmp)
        e = dict(env)
        if e:
            e.update({"LD_PRELOAD": fio, "FIO_ROOT": d})
        if setup:
            setup(d)
        res = gen("asan", d, stats, fl, e)
        c.case(key=("bad", name), sample=None)
        if res.timed_out:
            c.inconcl(name); return
        if res.sanitizer:
            c.violation("crash:gen:" + str(res.crash()), name + res.text[-800:], {"flags": fl, "env": env})
        if res.rc == 0:
            c.violation("error-not-reported:" + name.split(" ")[0], name + ": exit status 0", {"flags": fl, "env": env})
        shutil.rmtree(d, ignore_errors=True)
    sz = ["-gen_size_mb", repr(40000 / MB), "-num_threads", "4", "-gen_block_size", "1000"]
    items = []
    for n in sorted(c.rng.sample(range(1, 41), c.n(8, 40))):
        for err in (28, 5, 122):
            items.append(("write-failure %d errno %d" % (n, err), sz, {"FIO_FAIL": "write:%d:%d" % (n, err)}, good, None))
    items.append(("open-failure", sz, {"FIO_FAIL": "open:1:13"}, good, None))
    for s in range(c.n(3, 20)):
        items.append(("short-write %d" % s, sz, {"FIO_SHORT": "200:%d" % (s + c.seed)}, good, None))
    for nm, fl, st in (("empty-stats", sz, b""), ("zero-weight-stats", sz, stats_bytes([((97, 98), 0)])),
                       ("no-stats-file", sz + ["-stats_source", c.tmp + "/nonexistent"], b""),
                       ("size-too-small", ["-gen_size_mb", "0", "-num_threads", "4"], good),
                       ("fewer-bytes-than-threads", ["-gen_size_mb", repr(3 / MB), "-num_threads", "4"], good),
                       ("block-size-zero", sz[:4] + ["-gen_block_size", "0"], good),
                       ("block-size-negative", sz[:4] + ["-gen_block_size", "-5"], good),
                       ("bad-filename", sz + ["-filename", "no/such/dir/f"], good),
                       ("filename-is-directory", sz + ["-filename", "."], good)):
        items.append((nm, fl, {}, st, None))
    for cut in range(1, len(good)):
        if cut % 6:
            items.append(("truncated-stats %d" % cut, sz, {}, good[:cut], None))
    c.pmap(bad, items)
    res = run([exe["asan"], "-directory", c.tmp + "/nonexistent"] + sz, stdin=good)
    c.case(key=("bad", "no-directory"))
    if res.rc == 0:
        c.violation("error-not-reported:no-directory", "exit status 0")

    # beyond 32 bit offsets: writes are recorded, not done; quick stops the run
    # with an injected failure once every thread has written some blocks
    d = tempfile.mkdtemp(dir=c.tmp)
    tr = os.path.join(c.tmp, "trbig")
    total, nt = 9 * 1024 * MB, 9
    env = {"LD_PRELOAD": fio, "FIO_ROOT": d, "FIO_TRACE": tr, "FIO_SKIPW": "1"}
    if not c.thorough:
        env["FIO_FAIL"] = "write:1500:28"
    res = gen("plain", d, good, ["-num_threads", str(nt), "-gen_size_mb", "9216", "-gen_block_size", "65536"],
              env, timeout=1500)
    if res.timed_out:
        c.inconcl("large output")
    else:
        iv = sorted((int(f[2]), int(f[4])) for f in (l.split("\t") for l in open(tr)) if f[0] == "pwrite")
        per = total // nt
        nxt = {i * per: i for i in range(nt)}
        started = set()
        for off, n in iv:
            if off not in nxt:
                c.violation("large-offset", "9 GiB output: a write at offset %d continues no thread's part" % off)
                break
            i = nxt.pop(off)
            started.add(i)
            nxt[off + n] = i
        c.case(key=("large", len(started)), sample="9 GiB output: %d writes by %d threads recorded" % (len(iv), len(started)))
        if c.thorough and iv and (res.rc or set(nxt) != {(i + 1) * per for i in range(nt)}):
            c.violation("large-coverage", "9 GiB output: parts end at %r, exit %s" % (sorted(nxt), res.rc))
    # time seeding gives other bytes at another time
    outs = []
    for i in range(2):
        d = tempfile.mkdtemp(dir=c.tmp)
        gen("plain", d, stats_bytes([((a, b), 1) for a in range(97, 107) for b in range(97, 107)]),
            ["-num_threads", "1", "-gen_size_mb", "0.01", "-seed_with_time"])
        outs.append(open(os.path.join(d, "gen.data"), "rb").read())
        time.sleep(1.2)
    c.case(key="time-seed")
    if outs[0] == outs[1]:
        c.violation("time-seed", "runs seeded with the time, more than a second apart, gave equal data")


main(Check("C27", "exploration",
           "random statistics (chainable, dead ends, skewed, single pair, zero counts, all bytes) x thread count x "
           "size x block size x start x reset character x existing output x sanitizer build; oracle checks size, "
           "recorded writes, start string, every adjacent pair, proportions and determinism; injected write/open "
           "failures and unusable input must give a non-zero exit; distinct = different (statistics, flags)",
           ["total weight of the statistics below 2^31"]), body)
