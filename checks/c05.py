import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "tools"))
from vlib import *
import e2e, select

FAST = [("b.read_timeout_millis", 800), ("b.write_timeout_millis", 800), ("b.connect_timeout_millis", 300),
        ("r.max_accept_retries", 15), ("s.max_retries", 3), ("s.max_transfer_retries", 2)]


def forms(key):
    """Everything that would give away six bytes of the key in a row: hex, raw,
    backslash-escaped.  Keys have no byte that could occur by chance."""
    out = []
    for i in range(len(key) - 5):
        w = key[i:i + 6]
        out += [w, w.hex().encode(), w.hex().upper().encode()]
        out.append(b"".join(b"%%%02x" % x for x in w))
    return out


def leaks(key, text):
    # folly::humanify and similar escapes are undone first
    plain = re.sub(rb"\\x([0-9a-fA-F]{2})", lambda m: bytes([int(m.group(1), 16)]), text)
    octal = re.sub(rb"\\([0-7]{3})", lambda m: bytes([int(m.group(1), 8) & 255]), text)
    for f in forms(key):
        for t in (text, plain, octal):
            i = t.find(f)
            if i >= 0:
                a = t.rfind(b"\n", 0, i) + 1
                e = t.find(b"\n", i)
                return t[a:e if e > 0 else len(t)].decode("latin-1")
    return None


def site(line):
    """Where a leaking line was logged."""
    m = re.search(r" ([\w.]+\.(?:cpp|h)):\d+\]", line)
    s = m.group(1) if m else ("shown" if line.startswith("SHOWN") else "?")
    t = re.sub(r"^.*?\]", "", line)
    t = re.sub(r"[0-9a-fA-F]{6,}|\d+", "N", t)
    return s + ":" + " ".join(re.findall(r"[A-Za-z']{3,}", t)[:4])


def urls(c, binary):
    rng = random.Random("c05u-%d" % c.seed)
    n = c.n(6000, 100000)
    for part in range(max(1, n // 3000)):
        items = []
        for _ in range(3000):
            key = rng.randbytes(16)
            items.append((key, item(rng, key)))
        v = part % 2 * 9
        p = "%s/items%d" % (c.tmp, part)
        with open(p, "wb") as f:
            f.write(b"\0".join(i.encode("latin-1") for _, i in items))
        r = run([binary, "file=" + p, "v=%d" % v], timeout=200)
        if r.timed_out or r.rc != 0:
            c.violation("crash:" + (r.crash() or "exit%s" % r.rc), r.text[-2000:], {"file": p})
            return
        logs = re.split(rb"\nITEM (\d+)\n", r.err)
        seen = {int(logs[k]): logs[k + 1] for k in range(1, len(logs) - 1, 2)}
        res = {}
        for l in r.out.decode("latin-1").splitlines():
            if l.startswith("RES "):
                _, i, code, rest = l.split(" ", 3)
                res[int(i)] = (code, rest)
        for i, (key, it) in enumerate(items):
            text = seen.get(i, b"")
            code, rest = res.get(i, ("?", ""))
            c.case((it[0], code, v, len(set(re.findall(rb"\w+\.cpp:\d+", text)))) + tuple(sorted(set(re.findall(rb"(\w+\.cpp:\d+)", text)))),
                   "%s -> %s, %d log bytes" % (it.replace(key.hex(), "<key>")[:120], code, len(text)))
            c.add("log_bytes_searched", len(text))
            c.add("items_" + ("ok" if code == "OK" else "refused"))
            if code == "OK" and it[0] != "E" and any(leaks(key, q.encode("latin-1", "replace")) for q in it[1:].replace("?", "&", 1).split("&") if not q.startswith("Enc=")):
                c.add("keys_given_as_something_else")      # as the id, say: no secret then
                continue
            l = leaks(key, text)
            if l:
                c.violation("leak:" + site(l), "%r -> %s\nlogged: %s" % (it, code, l[:500]), {"item": it, "v": v})
            if code == "OK" and it[0] != "E" and "Enc=" in it and key.hex() in it and key.hex() not in rest and "&Enc=0" not in it:
                # a URL deliberately given to the peer does have the key
                if rest.count("Enc=") == 1 and key.hex()[:24] not in rest:
                    c.violation("url-without-secret", "%r -> %r" % (it, rest), None)


def item(rng, key):
    h = key.hex()
    enc = "%d:%s" % (rng.choice([1, 2, 2]), h)
    k = rng.random()
    if k < .25:                              # the parameter alone
        e = enc
        j = rng.randrange(9)
        if j == 1:
            e = e[:rng.randrange(14, len(e))]
        elif j == 2:
            i = rng.randrange(len(e))
            e = e[:i] + rng.choice("gxz:G %?-/A") + e[i + 1:]
        elif j == 3:
            e = h
        elif j == 4:
            e = rng.choice(["0:", "3:", "f:", "99:", ":", "x:"]) + h
        elif j == 5:
            e = e + rng.choice(["0", "zz", ":", "\n", " "])
        elif j == 6:
            e = rng.choice([" ", "\t", "2"]) + e
        elif j == 7:
            e = enc + h[:rng.randrange(len(h))]
        return "E" + e
    params = ["id=%d" % rng.randrange(10**6), "recpv=%d" % rng.choice([32, 32, 30, 5]), "num_ports=%d" % rng.choice([1, 2, 8])]
    if rng.random() < .4:
        params.append("tls=%s" % rng.choice(["0", "1", "true", "maybe"]))
    if rng.random() < .3:
        params.append("dr=%s" % rng.choice(["0", "1", "2x"]))
    if rng.random() < .3:
        params.append("iv_change_int=%s" % rng.choice(["1000", "-", "99999999999999999999"]))
    if rng.random() < .2:
        params.append(rng.choice(["ports=1,2,x", "ports=5,7", "start_port=9x", "dir=%2ftmp", "ns=a", "dstId=b", "unknown=1"]))
    params.append("Enc=" + enc)
    rng.shuffle(params)
    url = "wdt://%s%s?" % (rng.choice(["127.0.0.1", "[::1]", "localhost"]), rng.choice(["", ":22356", ":1"])) + "&".join(params)
    j = rng.randrange(16)
    if j == 1:
        url = rng.choice(["http", "WDT", "wd", "wdt:", "", " "]) + url[rng.randrange(1, 6):]
    elif j == 2:
        i = rng.randrange(len(url))
        url = url[:i] + rng.choice("%&=?:[]/# zG,") + url[i + 1:]
    elif j == 3:
        i = rng.randrange(len(url))
        url = url[:i] + rng.choice(["%", "%zz", "&=", "&&", "??", "%1", "&=x"]) + url[i:]
    elif j == 4:
        url = url.replace("?", rng.choice(["", "/", "#", "??", "&", "/x?"]), 1)
    elif j == 5:
        url = url.replace("wdt://127.0.0.1", "wdt://").replace("wdt://localhost", "wdt://").replace("[::1]", "[::1")
    elif j == 6:
        url = url + rng.choice(["%", "&", "&=", "&x", "=%g"])
    elif j == 7:
        url = url.replace("Enc=", rng.choice(["Enc", "Enc==", "Enc=%", "Enc:", "Enc=%zz", "enc=", "=Enc="]))
    elif j == 8:
        url = url.replace(enc, rng.choice([h, "2" + h, enc[:-1], enc + "%", enc + "%4", enc + "g", "2:%" + h[:-2], "%32:" + h, ":" + h, "2::" + h, enc.upper()]))
    elif j == 9:
        url = re.sub(r"(:\d+|)\?", rng.choice([":x?", ":99999999?", ":-1?", ":?"]), url, 1)
    elif j == 10:
        url = re.sub(r"num_ports=\d+", rng.choice(["num_ports=x", "num_ports=-1", "num_ports=99999999", ""]), url)
    elif j == 11:
        url = re.sub(r"recpv=\d+", rng.choice(["recpv=x", "recpv=", ""]), url)
    elif j == 12:
        return "S" + url
    elif j == 13:
        # any single mutation of bytes
        b = list(url)
        for _ in range(rng.randrange(1, 4)):
            b[rng.randrange(len(b))] = chr(rng.randrange(33, 127))
        url = "".join(b)
    return "U" + url


def transfer(c, bins, i):
    rng = random.Random("c05t-%d-%d" % (c.seed, i))
    root = "%s/t%d" % (c.tmp, i)
    e2e.fresh(root)
    key = rng.randbytes(16)
    mark = ("Mark%08dKram" % rng.randrange(10**8)).encode()
    files = {}
    for k in range(rng.randrange(1, 8)):
        b = bytearray(rng.randbytes(rng.choice([200, 5000, 70000, 300000])))
        for p in range(10, len(b) - 40, 997):
            b[p:p + len(mark)] = mark
        files["%sname%d%s" % ("d/" if k % 2 else "", k, mark.decode())] = bytes(b)
    e2e.write_tree(root + "/src", files)
    total = sum(map(len, files.values()))
    kind = ["plain", "fault", "fault", "version", "wrongid", "disk", "resume", "wrongkey", "oddopts", "abort"][i % 10]
    ports = rng.choice([1, 2, 4])
    o = FAST + [("b.num_ports", ports), ("log", 0), ("v", rng.choice([9, 9, 9, 3, 1, 0])), ("show", 1), ("id", "Id" + mark.decode()),
                ("s.encryption_tag_interval_bytes", rng.choice([0, 1000, 65536])), ("s.block_size_mbytes", rng.choice([-1, 0.01, 1])),
                ("s.full_reporting", rng.choice(["true", "false"])), ("src", root + "/src"), ("dst", root + "/dst")]
    etype = rng.choice([1, 2, 2])
    env = {"XFER_SECRET": "%d:%s" % (etype, key.hex())}
    if kind == "fault":
        for _ in range(rng.randrange(1, 4)):
            o.append(("f", "%s:%s:%s:%d:%s" % (rng.choice(["*", rng.randrange(ports)]), rng.choice("001"), rng.choice("ssr"),
                                               rng.choice([0, 1, 20, 23, 24, 60, rng.randrange(total // ports + 500)]), rng.choice(["rst", "fin", "flip:1", "flip:128", "flip:64", "stall:900"]))))
    elif kind == "version":
        o.append((rng.choice(["rproto", "sproto"]), rng.choice([31, 29, 26, 24, 23, 22, 20, 12, 5])))
    elif kind == "wrongid":
        o.append(("sid", "other"))
    elif kind == "disk":
        env["FIO_ROOT"] = root + "/dst"
        env["FIO_FAIL"] = "%s:%d:%d" % (rng.choice(["open", "write", "mkdir", "fsync"]), rng.randrange(1, 4), rng.choice([5, 28, 13]))
        env["LD_PRELOAD"] = bins["fio"]
    elif kind == "resume":
        o += [("b.enable_download_resumption", "true"), ("recovery", "rec"), ("samedst", 1), ("reps", 2), ("fault0", 1),
              ("f", "0:0:s:%d:rst" % rng.randrange(total))]
    elif kind == "oddopts":
        o += [("s.iv_change_interval_mb", rng.choice([0, 1])), ("b.enable_perf_stat_collection", "true"), ("report_cb", 1), ("b.progress_report_interval_millis", 5)]
    elif kind == "abort":
        o += [("act", "%s:abort:b%d" % (rng.choice("sr"), rng.randrange(total)))]
    cap = root + "/cap"
    os.makedirs(cap)
    o += [("proxy", 1), ("cap", cap)]
    if kind == "wrongkey":
        o = [x for x in o if x[0] not in ("proxy", "cap", "reps")]
        x = wrongkey(rng, bins["plain"], o, env, key, root)
        texts = {"log of the " + k: t for k, t in x.items()}
        enc, s, r = True, "-", "-"
        crashed = None
    else:
        x = e2e.xfer(bins["plain"], o, timeout=60, env=env)
        texts = {"log": x.res.err}
        st = (x.rep("s") or {}).get("threads", [])
        enc = bool(st) and all(t["enc"] == etype for t in st)
        s, r = x.err("s"), x.err("r")
        crashed = x.res.crash()
    n = sum(map(len, texts.values()))
    c.add("transfer_log_bytes_searched", n)
    c.add("transfers_" + kind)
    wire = {}
    for f in sorted(os.listdir(cap)):
        wire[f] = open(os.path.join(cap, f), "rb").read()
    c.add("wire_bytes_searched", sum(map(len, wire.values())))
    c.case((kind, etype, enc, s, r, dict(o).get("v"), bool(wire)), "%s: s=%s r=%s, encrypted %s, %d log bytes, %d wire bytes" %
           (kind, s, r, enc, n, sum(map(len, wire.values()))))
    rep = {"opts": o, "kind": kind, "index": i, "env": env}
    if crashed:
        c.inconcl("another property: " + crashed)
    for k, t in texts.items():
        l = leaks(key, t)
        if l:
            c.violation("leak:" + site(l), "%s (%s): %s" % (k, kind, l[:500]), rep)
    for k, t in wire.items():
        if any(f in t for f in forms(key)):
            c.violation("wire-key:" + kind, "the key is in %s" % k, rep)
        # every connection of a request with a key is encrypted from its first
        # byte; only peers of versions without encryption talk in clear
        if kind != "version" and mark in t:
            i0 = t.find(mark)
            c.violation("wire-clear:" + kind, "%s has %r in clear at %d, after %r" % (k, mark, i0, t[max(0, i0 - 60):i0]), rep)
    p = root + "/dst/.wdt.log"
    if os.path.exists(p):
        b = open(p, "rb").read()
        c.add("transfer_logs_searched")
        if any(f in b for f in forms(key)):
            c.violation("transfer-log-key", "the transfer log has the key", rep)
    shutil.rmtree(root, ignore_errors=True)


def wrongkey(rng, binary, o, env, key, root):
    """A receiver with the key, a sender with nearly the key."""
    e = dict(os.environ)
    e.update(SAN_ENV)
    e.update(env)
    ro = [a for a in o if a[0] not in ("src",) and not a[0].startswith("s.")] + [("role", "recv"), ("accept", 1)]
    p = subprocess.Popen([binary] + ["%s=%s" % a for a in ro], stdout=subprocess.PIPE, stderr=open(root + "/rerr", "wb"), env=e, start_new_session=True)
    url = None
    t = time.time()
    while time.time() - t < 10 and url is None:
        l = p.stdout.readline().decode("latin-1")
        if l.startswith("URL "):
            url = l[4:].strip()
        if not l:
            break
    out = {}
    if url:
        h = key.hex()
        i = rng.randrange(32)
        bad = url.replace(h, h[:i] + "%x" % (int(h[i], 16) ^ 1) + h[i + 1:]) if rng.random() < .6 else re.sub(r"Enc=[^&]*&?", "", url)
        so = [a for a in o if a[0] not in ("dst",) and not a[0].startswith("r.")] + [("role", "send"), ("url", bad)]
        # the arguments are shown by the driver's own crash message only
        r = run([binary] + ["%s=%s" % a for a in so], timeout=40, env={k: v for k, v in env.items() if k != "XFER_SECRET"})
        out["sender"] = r.err
    try:
        p.wait(30)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.wait()
    p.stdout.close()
    out["receiver"] = open(root + "/rerr", "rb").read()
    return out


def cli(c, wdt, i):
    """The tool itself: the key goes to standard output once, and nowhere else."""
    rng = random.Random("c05c-%d-%d" % (c.seed, i))
    root = "%s/c%d" % (c.tmp, i)
    e2e.fresh(root)
    e2e.write_tree(root + "/src", {"a": rng.randbytes(3000)})
    os.makedirs(root + "/dst")
    e = dict(os.environ)
    e.update(SAN_ENV)
    v = rng.choice(["-v=9", "-v=1", "-v=0"])
    rargs = [wdt, "-directory", root + "/dst", "-hostname", "127.0.0.1", "-start_port", "0", "-num_ports", "2", v, "-max_accept_retries", "30",
             "-read_timeout_millis", "800", "-encryption_type", rng.choice(["aes128gcm", "aes128ctr"])]
    p = subprocess.Popen(rargs, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=open(root + "/rerr", "wb"), env=e, start_new_session=True)
    url = p.stdout.readline().decode("latin-1").strip()
    m = re.search(r"Enc=\d:([0-9a-f]{32})", url)
    if not m:
        p.kill()
        p.wait()
        c.inconcl("no URL with a key: %r" % url)
        return
    key = bytes.fromhex(m.group(1))
    # whoever reads the URL may get it cut or damaged first
    bad = []
    for _ in range(3):
        u = url
        j = rng.randrange(7)
        if j == 0:
            u = u[:u.index(m.group(1)) + rng.randrange(14, 32)]
        elif j == 1:
            u = u[rng.randrange(1, 9):]
        elif j == 2:
            u = u.replace("Enc=", "Enc=%")
        elif j == 3:
            u = u.replace("?", "?=&")
        elif j == 4:
            u = re.sub(r"num_ports=\d+", "num_ports=x", u)
        elif j == 5:
            u = u.replace("127.0.0.1", "")
        else:
            u = u + "%"
        bad.append(u)
    errs = []
    for u in bad + [url]:
        if rng.random() < .5:
            r = run([wdt, "-directory", root + "/src", v, "-max_retries", "2", "-"], timeout=30, stdin=(u + "\n").encode("latin-1"))
        else:
            r = run([wdt, "-directory", root + "/src", v, "-max_retries", "2", "-connection_url", u], timeout=30)
        errs.append((u, r))
    try:
        p.wait(40)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.wait()
    rest = p.stdout.read()
    p.stdout.close()
    rerr = open(root + "/rerr", "rb").read()
    c.case(("cli", v, tuple(r.rc for _, r in errs)), "tool: receiver %s, senders %s" % (p.returncode, [r.rc for _, r in errs]))
    c.add("tool_log_bytes_searched", len(rerr) + sum(len(r.err) for _, r in errs))
    for what, t in [("receiver stderr", rerr), ("receiver stdout after the URL", rest)] + \
            [("sender stderr for %r" % u.replace(m.group(1), "<key>"), r.err) for u, r in errs] + [("sender stdout", r.out) for _, r in errs]:
        l = leaks(key, t)
        if l:
            c.violation("leak:" + site(l), "%s: %s" % (what, l[:400]), {"urls": bad + [url]})
    shutil.rmtree(root, ignore_errors=True)


def body(c):
    su = c.build("plain", "secret_unit", ["secret_unit.cpp"])
    bins = {"plain": c.build("plain", "xfer", ["xfer.cpp"]), "fio": core.build_faultio()}
    wdt = c.build("plain", "wdt", [], cli=True)
    urls(c, su)
    c.pmap(lambda i: transfer(c, bins, i), range(c.n(120, 2000)), 10)
    c.pmap(lambda i: cli(c, wdt, i), range(c.n(12, 120)), 6)


main(Check("C05", "exploration",
           "requests parsed (well-formed and damaged), whole transfers and tool runs with a known key; all they logged at up to verbosity 9 and all they put on the wire is searched for the key; distinct by kind, outcome and set of log sites reached"), body)
