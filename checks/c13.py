import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "tools"))
from vlib import *
import e2e, socket, struct, select

DONE, WAIT, ERR, ABORT, CHUNKS, ACK, HB, LOCAL, SETT = b"D", b"W", b"E", b"A", b"C", b"a", b"H", b"\x01", b"S"
I64 = 1 << 63


def vu(n):
    n &= (1 << 64) - 1
    o = b""
    while n >= 128 and len(o) < 8:
        o += bytes([n & 127 | 128])
        n >>= 7
    return o + bytes([n & 255 if len(o) == 8 else n])


def vi(n):   # signed values travel zig-zag coded in some places, plain in others
    return vu(n)


def cps(v, l):
    """A list of checkpoints (port, blocks, bytes, seqId, offset) of version v."""
    o = vu(len(l))
    for p, n, b, s, off in l:
        o += vi(p) + vi(n)
        if v >= 16:
            o += vi(b)
        if v >= 21:
            o += vu(s) + vi(off)
    return o


def local(v, l):
    n = 30 + (10 if v >= 16 else 0) + (20 if v >= 21 else 0)
    return cps(v, l).ljust(n, b"\0")[:n]


def err(v, l):
    b = cps(v, l)
    return ERR + struct.pack("<h", len(b)) + b


def abort(version, code, cp):
    return ABORT + struct.pack("<ibq", version, code, cp)


def chunkinfo(seq, name, size, chunks):
    b = vu(seq) + vu(len(name)) + name + vi(size) + vi(len(chunks))
    for s, e in chunks:
        b += vi(s) + vi(e)
    return b


def chunks(infos, buf=None, count=None, lens=None):
    body = b"".join(infos)
    o = CHUNKS + struct.pack("<qq", max(len(body), 8192) if buf is None else buf, len(infos) if count is None else count)
    if infos:
        o += struct.pack("<i", len(body) if lens is None else lens) + body
    return o


class Peer:
    """Answers a sender as a script says; everything it gets is drained and counted."""
    def __init__(self, scripts):
        self.socks, self.ports, self.got, self.sent, self.rst = [], [], 0, [], False
        self.scripts, self.stop, self.lock, self.conns = scripts, False, threading.Lock(), 0
        self.threads, self.log = [], []
        for _ in scripts:
            s = socket.socket()
            s.bind(("127.0.0.1", 0))
            s.listen(16)
            s.settimeout(.1)
            self.socks.append(s)
            self.ports.append(s.getsockname()[1])

    def start(self, scripts):
        self.scripts = scripts
        for i in range(len(self.socks)):
            t = threading.Thread(target=self.port, args=(i,), daemon=True)
            t.start()
            self.threads.append(t)

    def port(self, i):
        k = 0
        while not self.stop:
            try:
                c, _ = self.socks[i].accept()
            except socket.timeout:
                continue
            except OSError:
                break
            self.conns += 1
            sc = self.scripts[i][k] if k < len(self.scripts[i]) else [("fin",)]
            k += 1
            try:
                self.talk(i, k - 1, c, sc)
            except OSError as e:
                self.log.append((i, k - 1, repr(e)))
                self.rst = True
            c.close()
        self.socks[i].close()

    def drain(self, c, ms, st):
        """Reads for up to ms; False at the end of the stream."""
        r, _, _ = select.select([c], [], [], ms / 1000.0)
        if not r:
            return None
        d = c.recv(1 << 20)
        with self.lock:
            self.got += len(d)
        st["n"] += len(d)
        st["tail"] = (st["tail"] + d)[-300:]
        return bool(d)

    def talk(self, i, k, c, sc):
        st = {"n": 0, "tail": b"", "eof": False}
        for op in sc:
            end = time.time() + 3
            if self.stop:
                break
            if op[0] == "idle":
                while time.time() < end and not st["eof"]:
                    r = self.drain(c, op[1], st)
                    if r is None:
                        break
                    st["eof"] = not r
            elif op[0] == "bytes":
                end = time.time() + 1
                while time.time() < end and not st["eof"] and st["n"] < op[1]:
                    r = self.drain(c, 50, st)
                    st["eof"] = r is False
            elif op[0] == "send":
                with self.lock:
                    self.sent.append((i, k, op[1]))
                if len(op) > 2 and op[2]:
                    for x in range(0, min(len(op[1]), 400), op[2]):
                        c.sendall(op[1][x:x + op[2]])
                        time.sleep(.0005)
                    c.sendall(op[1][400:] if len(op[1]) > 400 else b"")
                else:
                    c.settimeout(2)
                    c.sendall(op[1])
                    c.settimeout(None)
            elif op[0] == "wait":
                time.sleep(op[1] / 1000.0)
            elif op[0] == "rst":
                self.rst = True
                c.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
                return
            elif op[0] == "fin":
                c.shutdown(socket.SHUT_WR)
                break
        end = time.time() + 3
        while time.time() < end and not st["eof"]:
            r = self.drain(c, 100, st)
            st["eof"] = r is False
        if not st["eof"]:
            self.rst = True

    def close(self):
        self.stop = True
        for t in self.threads:
            t.join(5)


EXTREME = [0, 1, 2, 3, -1, -2, 1 << 31, (1 << 31) - 1, -(1 << 31), I64 - 1, -I64, 1 << 40, 255, 65536]


def num(rng, near=()):
    k = rng.random()
    if near and k < .5:
        return rng.choice(near)
    if k < .75:
        return rng.randrange(-1, 9)
    return rng.choice(EXTREME)


HONEST = [("idle", 25), ("send", DONE), ("idle", 60)]


def message(rng, v, ports, me, files, kind):
    """One answer, right, nearly right or impossible."""
    k = rng.choice(["done", "done", "wait", "wait", "hb", "err", "err", "err", "local", "abort", "chunks", "ack", "junk", "byte", "cut", "settings"])
    if k == "done":
        return DONE
    if k == "wait":
        return WAIT * rng.choice([1, 1, 2, 50])
    if k == "hb":
        return HB * rng.choice([1, 5, 3000])
    if k == "err":
        m = err(v, [cp(rng, ports, me, files) for _ in range(rng.choice([0, 1, 1, 1, 2, 3, 40]))])
        if rng.random() < .15:
            m = ERR + struct.pack("<h", rng.choice([0, -1, 1, -32768, 32767, 400])) + m[3:]
        return m
    if k == "local":
        return local(v, [cp(rng, ports, me, files) for _ in range(rng.choice([0, 1, 1, 1, 2, 5]))])
    if k == "abort":
        return abort(rng.choice([v, v, v, v - 1, 10, 32, 31, 0, -1, 1 << 30, rng.randrange(40)]),
                     rng.choice([14, 14, 0, 1, 2, 24, 25, 26, 27, 100, -1, -128, 127]), num(rng))
    if k == "chunks":
        return hostile_chunks(rng, files)
    if k == "ack":
        return ACK
    if k == "junk":
        return rng.randbytes(rng.choice([1, 3, 60, 256, 5000]))
    if k == "byte":
        return bytes([rng.randrange(256)])
    if k == "cut":
        m = message(rng, v, ports, me, files, kind)
        return m[:rng.randrange(len(m) + 1)]
    return SETT + rng.randbytes(40)


def cp(rng, ports, me, files):
    sizes = [len(b) for b in files.values()] or [0]
    port = rng.choice(ports + ports + [me, 0, -1, 1, 65536, num(rng) & ((1 << 31) - 1)])
    return (port, num(rng, [0, 1, 2, len(files)]), num(rng, [0, 0, 1, sizes[0] // 2, sizes[-1]]), num(rng, [1, 2, len(files)]), num(rng, [0, 0]))


def hostile_chunks(rng, files):
    infos = []
    names = [os.fsencode(x) for x in files] + [b"other", b"", b"../x", b"a" * 300, b"/abs", b"\0"]
    for _ in range(rng.choice([0, 1, 1, 2, 3, 30])):
        n = rng.choice(names)
        size = len(files.get(os.fsdecode(n), b""))
        near = [0, size, size // 2, size + 1]
        ch = []
        for _ in range(rng.choice([0, 1, 1, 2, 3, 8])):
            ch.append((num(rng, near), num(rng, near)))
        if rng.random() < .3:
            ch.sort()
        infos.append(chunkinfo(num(rng, [1, 2, 3]), n, num(rng, [size, size]), ch))
    body = sum(map(len, infos))
    k = rng.random()
    if k < .6:
        return chunks(infos)
    if k < .7:
        return chunks(infos, count=rng.choice([0, len(infos) + 1, -1, I64 - 1, 1]))
    if k < .8:
        return chunks(infos, buf=rng.choice([0, -1, 1, body, body - 1 if body else 0, (1 << 31) - 1, 1 << 31, I64 - 1]))
    if k < .9:
        return chunks(infos, lens=rng.choice([0, -1, body + 1, max(0, body - 1), (1 << 31) - 1, 1]))
    return chunks(infos) + chunks(infos)


def script(rng, v, ports, me, files, kind, first):
    ops = []
    if kind == "chunks" and rng.random() < .85:
        if rng.random() < .2:
            ops.append(("send", rng.choice([WAIT, WAIT * 3, ACK, HB, local(v, [(me, 0, 0, 0, 0)])])))
        ops.append(("send", hostile_chunks(rng, files), rng.choice([0, 0, 0, 1, 7])))
        ops.append(("idle", 20))
    if not first and rng.random() < .7:
        ops.append(("send", local(v, [cp(rng, ports, me, files)]) if rng.random() < .5 else
                    local(v, [(me, rng.choice([0, 0, 1, 2, -1]), rng.choice([0, 0, 5]), rng.choice([0, 1, 2]), 0)])))
    for _ in range(rng.choice([0, 1, 1, 2, 3, 4])):
        if rng.random() < .8:
            ops.append(("idle", rng.choice([5, 20, 30])))
        elif rng.random() < .5:
            ops.append(("bytes", rng.randrange(4000)))
        if kind in ("err", "errver") and rng.random() < .6:
            other = rng.choice([p for p in ports if p != me] or [me])
            sizes = [len(b) for b in files.values()] or [0]
            m = err(v, [(other, rng.choice([0, 0, 1, 2]), rng.choice([0, 0, 1, sizes[0]]), rng.choice([0, 1, 2]), 0)])
        elif kind in ("version", "errver") and rng.random() < .7:
            m = abort(rng.choice([v, v - 1, 10, 13, 20, 31, 32, 32, 0, -1, 5, 9, 40]), rng.choice([VM, VM, VM, 0, 1]), num(rng, [0]))
        elif kind == "junk":
            m = rng.randbytes(rng.choice([1, 16, 60, 4000]))
        else:
            m = message(rng, v, ports, me, files, kind)
        ops.append(("send", m, rng.choice([0, 0, 0, 0, 1, 13])))
    k = rng.random()
    if k < .4:
        ops += HONEST
    elif k < .6:
        ops.append(("rst",))
    elif k < .8:
        ops.append(("fin",))
    return ops


VM = 0


def run_case(binary, c, root, opts, nports, mk, timeout=60, enc=""):
    """mk(ports) -> scripts. Returns (X, Peer)."""
    p = Peer([None] * nports)
    p.start(mk(p.ports))
    try:
        url = "wdt://127.0.0.1?id=c13&recpv=32&ports=%s" % ",".join(map(str, p.ports)) + enc
        x = e2e.xfer(binary, [("role", "send"), ("url", url), ("src", root + "/src")] + opts, timeout=timeout,
                     env={"ASAN_OPTIONS": SAN_ENV["ASAN_OPTIONS"].replace("mb=2000", "mb=3000")})
    finally:
        p.close()
    return x, p


BASE = [("s.read_timeout_millis", 300), ("s.write_timeout_millis", 300), ("s.connect_timeout_millis", 200), ("s.max_retries", 2),
        ("s.sleep_millis", 10), ("s.max_transfer_retries", 2), ("s.drain_extra_ms", 60), ("s.encryption_type", "none"),
        ("s.abort_check_interval_millis", 50)]


def body(c):
    global VM
    VM = error_code("VERSION_MISMATCH")
    bins = {"plain": c.build("plain", "xfer", ["xfer.cpp"]), "asan": c.build("asan", "xfer", ["xfer.cpp"]),
            "tsan": c.build("tsan", "xfer", ["xfer.cpp"])}
    n = int(os.environ.get("C13N", 0)) or c.n(1000, 20000)
    jobs = [(rng_kind, i) for i in range(n) for rng_kind in [["honest", "mixed", "mixed", "chunks", "err", "version", "junk", "impossible", "errver", "enc"][i % 10]]]
    c.pmap(lambda j: one(c, bins, *j), jobs, 12)
    c.add("cases", n)


def error_code(name):
    t = open(os.path.join(core.REPO, "ErrorCodes.h")).read()
    return re.findall(r"X\((\w+)\)", t).index(name)


IMPOSSIBLE = [
    ("err-length-0", lambda v, p, o: ERR + struct.pack("<h", 0)),
    ("err-length-negative", lambda v, p, o: ERR + struct.pack("<h", -5)),
    ("err-own-port", lambda v, p, o: err(v, [(p, 0, 0, 0, 0)])),
    ("err-no-such-port", lambda v, p, o: err(v, [(1, 0, 0, 0, 0)])),
    ("err-negative-blocks", lambda v, p, o: err(v, [(o, -5, 0, 0, 0)])),
    ("err-negative-bytes", lambda v, p, o: err(v, [(o, 0, -5, 0, 0)])),
    ("err-too-many-blocks", lambda v, p, o: err(v, [(o, 1000, 0, 0, 0)])),
    ("err-undecodable", lambda v, p, o: ERR + struct.pack("<h", 20) + b"\xff" * 20),
    ("local-not-spurious", lambda v, p, o: local(v, [(p, 1, 0, 1, 0)])),
    ("local-other-port", lambda v, p, o: local(v, [(o, 0, 0, 0, 0)])),
    ("unknown-command", lambda v, p, o: b"?"),
    ("chunks-now", lambda v, p, o: chunks([])),
    ("ack-now", lambda v, p, o: ACK),
]
IMPOSSIBLE_CHUNKS = [
    ("chunks-negative-buffer", lambda f: chunks([], buf=-1, count=1)),
    ("chunks-negative-count", lambda f: chunks([], count=-1)),
    ("chunks-huge-buffer", lambda f: chunks([], buf=1 << 31, count=1)),
    ("chunks-more-than-announced", lambda f: chunks([chunkinfo(1, b"x", 5, []), chunkinfo(2, b"y", 5, [])], count=1)),
    ("chunks-length-above-buffer", lambda f: chunks([chunkinfo(1, b"x", 5, [])], buf=3)),
    ("chunks-length-0", lambda f: chunks([chunkinfo(1, b"x", 5, [])], lens=0)),
    ("chunks-undecodable", lambda f: CHUNKS + struct.pack("<qqi", 8192, 1, 12) + b"\xff" * 12),
    ("chunks-end-before-start", lambda f: chunks([chunkinfo(1, f, 500, [(300, 100)])])),
    ("chunks-negative-start", lambda f: chunks([chunkinfo(1, f, 500, [(-300, 100)])])),
    ("ack-without-list", lambda f: ACK),
    ("unknown-command", lambda f: b"?"),
]


def one(c, bins, kind, i):
    rng = random.Random("c13-%d-%d" % (c.seed, i))
    build = rng.choice(["plain", "plain", "asan", "asan", "asan", "tsan"])
    root = "%s/%d" % (c.tmp, i)
    e2e.fresh(root)
    nports = rng.choice([1, 1, 2, 2, 3, 4])
    nfiles = rng.choice([0, 1, 2, 3, 6, 20])
    if kind == "impossible":
        nfiles = max(nfiles, 1)
        nports = 2
    files = {"f%d" % k if k % 3 else "d/f%d" % k: rng.randbytes(rng.choice([0, 1, 700, 5000, 70000])) for k in range(nfiles)}
    if kind == "impossible":
        files["d/f0"] = rng.randbytes(500)
    e2e.write_tree(root + "/src", files)
    total = sum(map(len, files.values()))
    v = rng.choice([32, 32, 32, 32, 28, 21, 17, 14, 12])
    o = BASE + [("sproto", v), ("s.block_size_mbytes", rng.choice([-1, 0.002, 0.01])), ("s.enable_checksum", rng.choice(["true", "false"])),
                ("s.enable_heart_beat", rng.choice(["true", "true", "false"])), ("s.buffer_size", rng.choice([4096, 16384, 262144]))]
    enc = ""
    tag, isChunks = None, kind == "chunks"
    if kind == "impossible" and rng.random() < .5:
        isChunks = True
        v = max(v, 14)
    if kind in ("mixed", "version") and rng.random() < .15:
        isChunks = v >= 13
    if isChunks:
        v = max(v, 14)
        o = [x for x in o if x[0] != "sproto"] + [("sproto", v), ("s.enable_download_resumption", "true")]
    if kind == "enc":
        enc = "&Enc=%d:%s" % (rng.choice([1, 2]), rng.randbytes(16).hex())
        o += [("s.encryption_tag_interval_bytes", rng.choice([0, 100, 4096]))]
    if rng.random() < .2:
        o.append(("s.throttler_log_time_millis", 0))
        o.append(("s.avg_mbytes_per_sec", 50))
    if rng.random() < .3:
        o.append(("s.full_reporting", "true"))
    if rng.random() < .2:
        o += [("report_cb", 1), ("b.progress_report_interval_millis", 5)]
    seed = rng.random()
    if kind == "impossible":
        tag, f = rng.choice(IMPOSSIBLE_CHUNKS if isChunks else IMPOSSIBLE)
        if tag == "err-negative-bytes" and v < 16:
            v = 17
            o = [x for x in o if x[0] != "sproto"] + [("sproto", v)]

    def mk(ports):
        r = random.Random(seed)
        if kind == "honest":
            pre = [("send", chunks([]))] if isChunks else []
            return [[pre + [("idle", 5), ("send", r.choice([b"", HB, WAIT, WAIT + HB * 9, local(v, [(p, 0, 0, 0, 0)])]), r.choice([0, 1]))] + HONEST] for p in ports]
        if kind == "impossible":
            if isChunks:
                bad = [("send", f(b"d/f0")), ("idle", 100)] + HONEST
                return [[bad] * 3, [bad] * 3]
            return [[[("idle", 25), ("send", f(v, p, ports[1 - k])), ("idle", 150), ("send", DONE), ("idle", 60)]] * 3 for k, p in enumerate(ports)]
        return [[script(r, v, ports, p, files, kind, k == 0) for k in range(r.choice([1, 1, 2, 3]))] for p in ports]
    for attempt in (1, 2):
        x, p = run_case(bins[build], c, root, o, nports, mk, 45 if build == "plain" else 90, enc)
        if not x.res.timed_out:
            break
    rep = {"opts": o, "kind": kind, "tag": tag, "index": i, "build": build, "files": {k: len(b) for k, b in files.items()},
           "scripts": repr(mk(p.ports))[:6000], "ports": p.ports, "result": x.brief(), "stderr_tail": x.res.text[-3000:]}
    cr = x.res.crash()
    threads = [t["err"] for t in (x.rep("s") or {}).get("threads", [])]
    c.case((kind, build, v, nports, x.err("s"), tuple(sorted(threads)), isChunks, tag, tuple(m[:1] for _, _, m in p.sent[:4])),
           "%s: %d ports, %d conns, answers %s -> %s" % (kind, nports, p.conns, [m[:12] for _, _, m in p.sent[:3]], x.err("s")))
    c.add("connections_answered", p.conns)
    c.add("messages_sent", len(p.sent))
    c.add("sender_" + str(x.err("s")))
    if cr:
        c.violation("crash:" + cr, "%s %s: %s\n%s" % (kind, tag, x.brief(), x.res.text[-2500:]), rep)
    elif x.res.timed_out:
        c.violation("hang:" + kind, "the sender did not end, twice: " + x.res.text[-1500:], rep)
    elif not x.d or x.err("s") is None:
        c.violation("no-report", x.brief() + x.res.text[-800:], rep)
    else:
        lied = any(CHUNKS in m[:3] or b"C" in m for _, _, m in p.sent)
        if x.ok("s"):
            c.add("successes")
            said = sum(1 for _, _, m in p.sent if b"D" in m)
            if kind == "enc":
                if total:
                    c.violation("ok-without-decryptable-ack", "encrypted sender succeeded on answers in clear", rep)
            elif not said:
                c.violation("ok-without-done", "success though the peer never acknowledged", rep)
            elif not p.rst and not lied and p.got < total:
                c.violation("ok-without-data", "success after %d bytes on the wire, the files have %d" % (p.got, total), rep)
        if kind == "honest" and not x.ok("s"):
            for _ in range(3):
                x, p = run_case(bins[build], c, root, o, nports, mk)
                if x.ok("s"):
                    break
            else:
                c.violation("honest-refused", x.brief() + x.res.text[-1500:], rep)
        if kind == "impossible":
            c.add("impossible_" + tag)
            if x.ok("s") or "PROTOCOL_ERROR" not in threads:
                c.violation("impossible-accepted:" + tag, "%s %s" % (x.brief(), threads), rep)
    d = e2e.diff(files, root + "/src", dirs=False)
    if d:
        c.violation("source-changed", str(d[:3]), rep)
    shutil.rmtree(root, ignore_errors=True)


main(Check("C13", "exploration",
           "a real sender run against a scripted peer: per port and connection a sequence of answers, right, nearly right or impossible; distinct by kind, build, version, outcome, per-thread errors and first answers"), body)
