import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "tools"))
from vlib import *
from collections import Counter
import struct, tempfile


def expected(data, wrap):
    if len(data) < 2:
        cnt = Counter()
    else:
        cnt = Counter(zip(data, data[1:]))
    if wrap and data:
        cnt[(data[-1], data[0])] += 1
    return cnt


TXT = re.compile(rb'\t\{\{"((?:\\\\|\\"|\\0[0-7]{1,3}|[ -~]){2})"\}, (\d+)\},\n', re.S)


def esc(c):
    if c < 32 or c > 126:
        return b"\\0%o" % c
    if c == 92:
        return b"\\\\"
    if c == 34:
        return b'\\"'
    return bytes([c])


PAIRTXT = {b'{"' + esc(a) + esc(b) + b'"}': (a, b) for a in range(256) for b in range(256)}


def parse_text(out):
    recs = []
    for line in out.split(b"\n")[:-1]:
        m = re.fullmatch(rb"\t\{(\{\".*\"\}), (\d+)\},", line, re.S)
        if not m or m.group(1) not in PAIRTXT:
            return None, line
        recs.append((PAIRTXT[m.group(1)], int(m.group(2))))
    if out and not out.endswith(b"\n"):
        return None, b"no final newline"
    return recs, None


def parse_bin(out):
    if len(out) % 6:
        return None, b"length %d is not a multiple of 6" % len(out)
    return [((out[i], out[i + 1]), struct.unpack_from("<I", out, i + 2)[0])
            for i in range(0, len(out), 6)], None


def key_s(p):
    return tuple(b - 256 if b > 127 else b for b in p)


def check_recs(recs, cnt):
    seen = set()
    for p, n in recs:
        if p in seen:
            return "pair %r listed twice" % (p,)
        seen.add(p)
        if cnt.get(p, 0) != n:
            return "pair %r has count %d, really occurs %d times" % (p, n, cnt.get(p, 0))
    miss = set(cnt) - seen
    if miss:
        return "pairs missing: %r" % (sorted(miss)[:5],)
    if recs != sorted(recs, key=lambda r: (-r[1], r[0])) and \
       recs != sorted(recs, key=lambda r: (-r[1], key_s(r[0]))):
        return "not in decreasing count, then pair order"
    return None


def gen_inputs(c):
    r = c.rng
    yield b"", "empty"
    for b in (0, 10, 13, 26, 65, 127, 128, 255):
        yield bytes([b]), "one byte %d" % b
        yield bytes([b]) * 2, "two equal bytes %d" % b
        yield bytes([b]) * r.choice([255, 256, 257, 300, 65535, 65537, 70000]), "run of %d" % b
    yield bytes(range(256)), "all bytes"
    # every pair once (de Bruijn style walk over all pairs)
    seq = bytearray()
    for a in range(256):
        for b in range(a, 256):
            seq += bytes([a, b])
    yield bytes(seq), "all pairs"
    for k in (1, 2, 3):
        for base in (4096, 8192, 65536, 131072):
            n = base + r.randint(-3, 3)
            yield bytes(r.choice((b"ab", b"\x00\xff", b"\xff\xfe\x80", bytes(range(256))))[0:]
                        [i % k if k < 3 else r.randrange(2)] for i in range(n)), "around %d" % base
    for i in range(c.n(120, 3000)):
        kind = r.randrange(6)
        n = r.choice([r.randint(2, 12), r.randint(2, 300), r.randint(2, 20000)])
        if kind == 0:
            d = r.randbytes(n)
        elif kind == 1:
            al = r.randbytes(r.randint(1, 4))
            d = bytes(r.choice(al) for _ in range(n))
        elif kind == 2:
            d = ("".join(r.choice("the quick\n brown\t\\\"fox ") for _ in range(n))).encode()
        elif kind == 3:
            al = bytes([255, 254, 128, 127, 0, 10])
            d = bytes(r.choice(al) for _ in range(n))
        elif kind == 4:
            d = r.randbytes(r.randint(1, 3)) * (n // 2 + 1)
        else:
            d = b"".join(bytes([r.randrange(256)]) * r.randint(1, 600) for _ in range(r.randint(1, 40)))
        yield d, "random kind %d" % kind


def body(c):
    st = c.build("asan", "wdt_gen_stats", [], ["bench/Bigram.cpp", "bench/wdtStats.cpp"], libs=core.BENCH_LIBS)
    stp = c.build("plain", "wdt_gen_stats", [], ["bench/Bigram.cpp", "bench/wdtStats.cpp"], libs=core.BENCH_LIBS)
    gf = c.build("asan", "wdt_gen_files", [], ["bench/Bigram.cpp", "bench/wdtGenFiles.cpp"], libs=core.BENCH_LIBS)
    rd = c.build("asan", "stats_read", ["stats_read.cpp"], ["bench/Bigram.cpp"], libs=core.BENCH_LIBS)
    cases = []
    for d, name in gen_inputs(c):
        for wrap in ((False, True) if len(d) < 5000 else (c.rng.random() < .5,)):
            for binary in ((False, True) if len(d) < 5000 else (True, c.rng.random() < .3)):
                cases.append((d, name, wrap, binary, st, c.rng.random()))
    # counts beyond 16 and 24 bits
    big = [b"\x00" * 17000000, b"ab\xff" * 6000000, b"a" * 70000 + b"\x80" * 66000, c.rng.randbytes(1) * 16777217]
    for d in big[:c.n(3, 4)]:
        cases.append((d, "big", c.rng.random() < .5, True, stp, 1.0))
        cases.append((d, "big", c.rng.random() < .5, False, stp, 1.0))

    def one(t):
        d, name, wrap, binary, exe, how = t
        cmd = [exe] + (["-wrap"] if wrap else []) + (["-binary"] if binary else [])
        if how < .15 and len(d) > 1:   # from a file, or a pipe fed in pieces
            with tempfile.NamedTemporaryFile(dir=c.tmp) as f:
                f.write(d); f.flush()
                with open(f.name, "rb") as g:
                    e = dict(os.environ); e.update(SAN_ENV)
                    p = subprocess.run(cmd, stdin=g, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, timeout=120)
                    r = Res(cmd, p.returncode, p.stdout, p.stderr, False, 0)
        elif how < .3 and len(d) > 1:
            e = dict(os.environ); e.update(SAN_ENV)
            p = subprocess.Popen(cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e)
            import random as _r
            rr = _r.Random(len(d))
            pos = 0
            while pos < len(d):
                k = rr.randint(1, max(1, len(d) // 3))
                try:
                    p.stdin.write(d[pos:pos + k]); p.stdin.flush()
                except BrokenPipeError:
                    break
                pos += k
                time.sleep(.002)
            o, er = p.communicate(timeout=120)
            r = Res(cmd, p.returncode, o, er, False, 0)
        else:
            r = run(cmd, stdin=d, timeout=120)
        what = "%s (%d bytes %s) wrap=%s binary=%s" % (name, len(d), d[:40].hex(), wrap, binary)
        rep = {"cmd": cmd, "input_hex": d[:4000].hex(), "input_len": len(d)}
        c.case(key=(hashlib.sha1(d).hexdigest(), wrap, binary), sample=what if len(d) > 1 else None)
        if r.timed_out:
            c.inconcl(what); return
        if r.crash() or r.rc:
            c.violation("crash:stats:%s" % (r.crash() or r.rc), what + r.text[-800:], rep); return
        cnt = expected(d, wrap)
        recs, bad = (parse_bin if binary else parse_text)(r.out)
        if recs is None:
            c.violation("format:%s" % ("binary" if binary else "text"), "%s: %r" % (what, bad), rep); return
        e = check_recs(recs, cnt)
        c.add("pairs_checked", len(recs))
        if e:
            c.violation("stats:%s:%s" % ("binary" if binary else "text", re.sub(r"[\d(), ]+", " ", e)[:40]),
                        what + ": " + e, rep)
            return
        if binary and len(d) < 100000 and recs:
            # read back through the project's own reader
            rb = run([rd], stdin=r.out)
            want = b"".join(b"%02x%02x %d\n" % (p[0], p[1], n) for p, n in recs)
            if rb.crash() or rb.out != want + b"END\n":
                c.violation("readback", "%s: %s" % (what, rb.crash() or "records differ"), rep)
            c.add("records_read_back", len(recs))
    c.pmap(one, cases)

    # truncated or padded statistics are refused by the consumer
    def trunc(k):
        import random as _r
        rr = _r.Random("%d-%d" % (c.seed, k))
        n = rr.randint(1, 30)
        recs = [(bytes([rr.randrange(97, 100), rr.randrange(97, 100)]), rr.choice([1, 3, 200, 256, 1000])) for _ in range(n)]
        raw = b"".join(p + struct.pack("<I", v) for p, v in recs)
        cut = rr.randint(1, 5)
        bad = raw[:-cut] if rr.random() < .6 else raw + rr.randbytes(rr.randint(1, 5))
        d = tempfile.mkdtemp(dir=c.tmp)
        for name, data, want_ok in (("whole", raw, True), ("cut", bad, False)):
            if rr.random() < .5:
                r = run([gf, "-directory", d, "-gen_size_mb", "0.001", "-num_threads", "2"], stdin=data)
            else:
                sp = os.path.join(d, "st"); open(sp, "wb").write(data)
                r = run([gf, "-directory", d, "-gen_size_mb", "0.001", "-num_threads", "2", "-stats_source", sp])
            c.case(key=("trunc", hashlib.sha1(data).hexdigest(), name))
            if r.timed_out:
                c.inconcl("generator timed out"); continue
            if r.sanitizer:
                c.violation("crash:gen:" + str(r.crash()), r.text[-800:], {"stats": data.hex()})
            if want_ok and r.rc != 0:
                c.violation("valid-stats-refused", "%d records: exit %s %s" % (n, r.rc, r.text[-300:]), {"stats": data.hex()})
            if not want_ok and r.rc == 0:
                c.violation("truncated-stats-accepted", "%d records, %d bytes: exit 0" % (n, len(data)), {"stats": data.hex()})
    c.pmap(trunc, range(c.n(40, 600)))


main(Check("C26", "exploration",
           "random and boundary inputs (empty, single bytes, runs over 2^16 and 2^24, all pairs, all byte values, "
           "buffer boundaries) x wrap x text/binary through the statistics tool, compared with an independent "
           "count; binary output read back; truncated statistics given to the generator; distinct = different "
           "(input, wrap, format)",
           ["fewer than 2^32 occurrences of one pair"]), body)
