import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "tools"))
from vlib import *
import e2e, wlog, select, socket, threading
from urllib.parse import unquote

FAST = ["-read_timeout_millis", "1000", "-write_timeout_millis", "1000", "-connect_timeout_millis", "400", "-abort_check_interval_millis", "50"]
LONE = ["-max_accept_retries", "60"]          # a receiver nobody comes to gives up after 6 s
CHARS = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_.:,%+&=?/ "


class Recv:
    """A receiver process of the tool; its standard output is read line by line."""

    def __init__(self, wdt, root, args, cwd=None, env=None, dir_arg=True):
        e = dict(os.environ)
        e.update(SAN_ENV)
        e.update(env or {})
        self.err_path = root + "/rerr"
        self.root = root
        a = [wdt] + (["-directory", root + "/dst"] if dir_arg else []) + args
        self.args = a
        self.p = subprocess.Popen(a, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=open(self.err_path, "wb"),
                                  env=e, start_new_session=True, cwd=cwd)
        self.first = b""
        if select.select([self.p.stdout], [], [], 20)[0]:
            self.first = self.p.stdout.readline()
        self.url = self.first.decode("latin-1").rstrip("\n")

    def end(self, t=60):
        """(exit status or None, all of stdout, all of stderr)"""
        rest = [b""]

        def rd():
            rest[0] = self.p.stdout.read()
        th = threading.Thread(target=rd)
        th.start()
        try:
            self.p.wait(t)
            rc = self.p.returncode
        except subprocess.TimeoutExpired:
            rc = None
            self.kill()
        th.join(t)
        self.p.stdout.close()
        return rc, self.first + rest[0], open(self.err_path, "rb").read()

    def kill(self, sig=signal.SIGKILL):
        try:
            os.killpg(self.p.pid, sig)
        except OSError:
            pass
        self.p.wait()


def parse(url):
    """Independent reading of a connection URL: host, {param: value}, ports."""
    m = re.match(r"wdt://(\[[^\]]*\]|[^:?/\[\]]*)(?::(\d+))?\?(.*)$", url)
    if not m:
        return None
    q = {}
    for part in m.group(3).split("&"):
        k, _, v = part.partition("=")
        if k in q:
            return None
        q[k] = unquote(v)
    if "ports" in q:
        ports = [int(x) for x in q["ports"].split(",")]
    else:
        n = int(q.get("num_ports", "8"))
        ports = [int(m.group(2) or 22356) + i for i in range(n)]
    return m.group(1).strip("[]"), q, ports


def small_tree(rng, root):
    return e2e.gen_tree(rng, root, maxtotal=400000)


def manifest(rng, files, root, odd=False):
    """(text, expected files) of a manifest naming some of the files."""
    names = [f for f in files if "\t" not in f and "\n" not in f and f == f.strip("\r")]
    rng.shuffle(names)
    names = names[:rng.randrange(len(names) + 1)]
    out, want = [], {}
    for f in names:
        n = len(files[f])
        k = rng.random()
        size = None
        if k < .35:
            size = n
        elif k < .5:
            size = -1
        elif k < .65 and n > 1:
            size = rng.randrange(n)         # only the beginning of it
        l = f
        if size is not None:
            l += "\t%d" % size
            if rng.random() < .6:
                l += "\t" + rng.choice(["0", "1", "false", "true"])
        out.append(l)
        want[f] = files[f] if size in (None, -1) else files[f][:size]
    t = "\n".join(out) + ("\n" if out and rng.random() < .8 else "")
    return t, want


def send(wdt, url, args, how, rng, stdin_rest="", cwd=None, timeout=90, env=None):
    if how == "stdin":
        return run([wdt] + args + ["-"], timeout=timeout, stdin=(url + "\n" + stdin_rest).encode("utf-8", "surrogateescape"), cwd=cwd, env=env)
    return run([wdt] + args + ["-connection_url", url], timeout=timeout, cwd=cwd, env=env,
               stdin=stdin_rest.encode("utf-8", "surrogateescape") if stdin_rest else None)


def bad_stdout(out, url):
    """The receiver's standard output must be the URL and nothing else."""
    lines = out.split(b"\n")
    return lines != [url.encode("latin-1"), b""]


def good(c, wdt, seed):
    """Transfers that must succeed."""
    rng = random.Random("c32g-%d" % seed)
    root = "%s/g%d" % (c.tmp, seed)
    e2e.fresh(root)
    files = small_tree(rng, root + "/src")
    os.makedirs(root + "/dst")
    want = dict(files)
    ra, sa, chk = list(FAST + LONE), list(FAST), {}
    np = rng.choice([1, 2, 3, 8])
    ra += ["-start_port", "0", "-num_ports", str(np)]
    host = rng.choice(["127.0.0.1", "127.0.0.1", "localhost", None, "::1"])
    if host:
        ra += ["-hostname", host]
    tid = None
    if rng.random() < .4:
        tid = "".join(rng.choice(CHARS) for _ in range(rng.randrange(1, 30)))
        if tid[0] == "-":
            tid = "x" + tid
        ra += ["-transfer_id=" + tid]
    enc = rng.choice(["aes128gcm", "aes128ctr", "none", None])
    secret = None
    if enc:
        ra += ["-encryption_type", enc]
        if enc != "none" and rng.random() < .3:
            secret = "".join(rng.choice("abcdefghijklmnop0123456789") for _ in range(16))
            ra += ["-test_only_encryption_secret", secret]
    pv = None
    if rng.random() < .2:
        pv = rng.choice([25, 27, 30, 31])
        (ra if rng.random() < .5 else sa).extend(["-protocol_version", str(pv)])
    resum = rng.random() < .25
    if resum:
        ra += rng.choice([["-enable_download_resumption"], ["-recovery_id", "abc"]])
    if rng.random() < .2:
        ra += ["-option_type", "disk"]
    if rng.random() < .2:
        sa += ["-option_type", "disk"]
    if rng.random() < .3:
        sa += ["-full_reporting"]
    if rng.random() < .2:
        sa += ["-two_phases"]
    if rng.random() < .2:
        sa += ["-odirect_reads"]
    if rng.random() < .3:
        sa += ["-block_size_mbytes", rng.choice(["0.01", "0.1", "-1"])]
    if rng.random() < .2:
        (ra if rng.random() < .5 else sa).extend(["-progress_report_interval_millis", rng.choice(["0", "1", "50"])])
    if rng.random() < .1:
        ra += ["-abort_after_seconds", "90"]
        sa += ["-abort_after_seconds", "90"]
    if rng.random() < .15:
        sa += ["-app_name", "other"]
    if rng.random() < .2:
        sa += ["-namespace", "shard1"]
    if rng.random() < .15:
        sa += ["-dest_id", "d1"]
    fork = rng.random() < .15
    if fork:
        ra += ["-fork"]
    badflag = rng.random() < .1
    if badflag:
        ra += ["-exit_on_bad_flags=false", "-no_such_flag=1"]
    how = rng.choice(["stdin", "arg"])
    rest = ""
    if rng.random() < .5:
        t, want = manifest(rng, files, root)
        if rng.random() < .35:
            sa += ["-manifest", "-"]
            rest = t
        else:
            with open(root + "/manifest", "w", encoding="utf-8", errors="surrogateescape") as f:
                f.write(t)
            sa += ["-manifest", root + "/manifest"]
    elif rng.random() < .3:
        # digits in names decide
        sa += ["-include_regex", ".*[0-4][^/]*"]
        want = {f: b for f, b in files.items() if re.fullmatch(r"[\s\S]*[0-4][^/]*", f)}
        if any("\n" in f or "\r" in f for f in files):
            sa = sa[:-2]
            want = dict(files)
    cw = rng.random() < .2
    r = Recv(wdt, root, ra, cwd=root + "/dst" if cw else None, dir_arg=not cw)
    u = parse(r.url)
    tag = "%s np=%d enc=%s how=%s fork=%d man=%d" % (host, np, enc, how, fork, "-manifest" in sa)
    replay = {"receiver": ra, "sender": sa, "how": how}

    def bad(key, txt):
        c.violation(key, "%s\n%s" % (tag, txt), replay)
    try:
        if u is None:
            bad("no-url", "first line %r, stderr %s" % (r.first[:300], open(r.err_path, "rb").read()[-800:]))
            return
        h, q, ports = u
        if host and h != host:
            bad("url-host", "%r for -hostname %s" % (r.url, host))
        if tid is not None and q.get("id") != tid:
            bad("url-id", "%r for -transfer_id %r" % (r.url, tid))
        if enc == "none":
            if "Enc" in q:
                bad("url-key-unasked", r.url)
        elif not re.match({"aes128ctr": "1", "aes128gcm": "2", None: "2"}[enc] + ":[0-9a-f]{32}$", q.get("Enc", "")):
            bad("url-key", "%r for -encryption_type %s" % (r.url, enc))
        elif secret and q["Enc"][2:] != secret.encode().hex():
            bad("url-secret", "%r for secret %r" % (r.url, secret))
        if len(ports) != np or len(set(ports)) != np or min(ports) <= 0:
            bad("url-ports", "%r for %d ports" % (r.url, np))
        if host is None:
            # whatever it calls itself must not be needed to resolve here
            sa += ["-hostname", "127.0.0.1"]
        s = send(wdt, r.url, sa + ([] if cw else ["-directory", root + "/src"]), how, rng, rest, cwd=root + "/src" if cw else None)
        if fork:
            rc, out, err = None, None, None
            r.p.wait(20)
            rc = r.p.returncode
            out = r.first + r.p.stdout.read()
            r.p.stdout.close()
            # the child is no longer ours: it is done when the tree is
            t0 = time.time()
            d = e2e.diff(want, root + "/dst", dirs=False)
            while d and time.time() - t0 < 20:
                time.sleep(.05)
                d = e2e.diff(want, root + "/dst", dirs=False)
            try:
                os.killpg(r.p.pid, 0)
                time.sleep(.2)
            except OSError:
                pass
        else:
            rc, out, err = r.end(90)
            d = e2e.diff(want, root + "/dst", dirs=False)
        cr = s.crash()
        if cr:
            bad("crash:" + cr, s.text[-1500:])
        elif s.timed_out or rc is None:
            bad("hang", "sender %s, receiver %s; %s" % (s.rc, rc, s.text[-800:]))
        else:
            if bad_stdout(out, r.url):
                bad("stdout", "%r" % out[:400])
            if s.out:
                bad("sender-stdout", "%r" % s.out[:400])
            if s.rc or rc:
                bad("fails:%s/%s" % (s.rc, rc), "%s\n%s" % (s.text[-700:], open(r.err_path, "rb").read()[-700:].decode("latin-1")))
            elif d:
                bad("tree:" + d[0].split()[0], "%s" % d[:4])
        c.case(("good", np, host, enc, how, fork, resum, "-manifest" in sa, pv, rest != "", cw, len(want) == len(files)),
               tag + " -> s=%s r=%s files=%d/%d" % (s.rc, rc, len(want), len(files)))
        c.add("urls_checked")
        c.add("exit_statuses_checked", 2)
        c.add("files_compared", len(want))
    finally:
        r.kill()
        shutil.rmtree(root, ignore_errors=True)


BADURL = [
    lambda u, g: "", lambda u, g: u[4:], lambda u, g: "http" + u[3:], lambda u, g: u.split("?")[0] + "?",
    lambda u, g: re.sub(r"recpv=\d+", "recpv=x", u), lambda u, g: re.sub(r"(ports=)[\d,]+", r"\g<1>1,x", u),
    lambda u, g: re.sub(r"Enc=\d:", "Enc=9:", u), lambda u, g: re.sub(r"Enc=(\d):", r"Enc=\1", u),
    lambda u, g: u.replace("Enc=2:", "Enc=2:zz"), lambda u, g: u + "%", lambda u, g: u + "&id=%g1",
    lambda u, g: u.replace("127.0.0.1", ""), lambda u, g: "wdt://", lambda u, g: " ",
    lambda u, g: u.replace("127.0.0.1", "[::1"), lambda u, g: re.sub(r"recpv=\d+", "recpv=1000000000000", u),
]


def refuse(c, wdt, seed):
    """Invocations that must be refused; then a sound sender succeeds with the
    same receiver, as the refused ones must not have used it up."""
    rng = random.Random("c32r-%d" % seed)
    root = "%s/r%d" % (c.tmp, seed)
    e2e.fresh(root)
    files = {"a": rng.randbytes(2000), "d/b": rng.randbytes(70), "e": b""}
    e2e.write_tree(root + "/src", files)
    os.makedirs(root + "/dst")
    r = Recv(wdt, root, FAST + LONE + ["-start_port", "0", "-num_ports", "2", "-hostname", "127.0.0.1"])
    try:
        if parse(r.url) is None:
            c.violation("no-url", "first line %r" % r.first[:300], {})
            return
        for _ in range(5):
            k = rng.randrange(5)
            sa = FAST + ["-max_retries", "2", "-directory", root + "/src"]
            touch = 0
            if k == 0:
                f = rng.choice(BADURL)
                u = f(r.url, rng)
                how = "stdin" if u == "" else rng.choice(["stdin", "arg"])
                s = send(wdt, u, sa, how, rng, timeout=40)
                what = "url %r %s" % (u, how)
            elif k == 1:
                a = rng.choice([["x"], ["x", "y"], ["-"] * 2, ["--no_such_flag"], ["-num_ports", "x"], ["-no_such=1", "-"],
                                ["-two_phases=maybe"], ["-block_size_mbytes", "q"], ["-num_ports"], ["-", "x"], ["--", "x"], [""]])
                u = r.url
                s = run([wdt] + sa + a, timeout=40, stdin=(u + "\n").encode())
                what = "arguments %r" % (a,)
            elif k in (2, 3):
                line = rng.choice(["a\tx", "a\t1\t1\tz", "a\t1.5", "a\t99999999999999999999", "a\t1\tmaybe", "a\t1\t1\t1\t1", "\t\t", "", "a\t 7x", "a\t0x7"])
                t = rng.choice(["", "a\n", "a\t5\ne\n"]) + line + "\n" + rng.choice(["", "d/b\n"])
                with open(root + "/m", "w") as f:
                    f.write(t)
                how = rng.choice(["stdin", "arg"])
                if rng.random() < .4:
                    s = send(wdt, r.url, sa + ["-manifest", "-"], how, rng, t, timeout=40)
                else:
                    s = send(wdt, r.url, sa + ["-manifest", root + "/m"], how, rng, timeout=40)
                what = "manifest %r" % t
            else:
                m = rng.choice([root + "/none", root + "/src", root + "/m/x", root + "/" + "n" * 300])
                s = send(wdt, r.url, sa + ["-manifest", m], rng.choice(["stdin", "arg"]), rng, timeout=40)
                what = "unreadable manifest %s" % os.path.basename(m)[:20]
            got = e2e.read_tree(root + "/dst")[0]
            cr = s.crash()
            key = re.sub(r"[^a-z]+", "-", what.split()[0])
            if cr and ("AddressSanitizer" in s.text or "runtime error" in s.text or "ThreadSan" in s.text):
                c.violation("crash:" + cr, what + "\n" + s.text[-1200:], {"what": what})
            elif s.timed_out:
                c.violation("hang-" + key, what + "\n" + s.text[-800:], {"what": what})
            elif s.rc == 0:
                c.violation("zero-for-bad-" + key, "%s: exit status 0; %s" % (what, s.text[-600:]), {"what": what})
            elif got:
                c.violation("transferred-bad-" + key, "%s: %s" % (what, sorted(got)[:4]), {"what": what})
            c.case(("refuse", re.sub(r"\d{3,}", "N", what)), "%s -> %s" % (what[:150], s.rc))
            c.add("refused_invocations")
        s = send(wdt, r.url, FAST + ["-directory", root + "/src"], "stdin", rng)
        rc, out, err = r.end(60)
        d = e2e.diff(files, root + "/dst")
        if s.rc or rc or d:
            c.violation("used-up", "after refused senders: sender %s receiver %s %s\n%s" % (s.rc, rc, d[:3], err[-800:].decode("latin-1")), {})
        if bad_stdout(out, r.url):
            c.violation("stdout", "%r" % out[:400], {})
    finally:
        r.kill()
        shutil.rmtree(root, ignore_errors=True)


def fault(c, wdt, seed):
    """Transfers that (may) fail: a zero exit status needs a complete tree."""
    rng = random.Random("c32f-%d" % seed)
    root = "%s/f%d" % (c.tmp, seed)
    e2e.fresh(root)
    files = small_tree(rng, root + "/src")
    files["z"] = rng.randbytes(300000)
    e2e.write_tree(root + "/src", {"z": files["z"]})
    os.makedirs(root + "/dst")
    want = dict(files)
    ra = FAST + LONE + ["-start_port", "0", "-num_ports", str(rng.choice([1, 2, 4])), "-hostname", "127.0.0.1"]
    sa = FAST + ["-max_retries", "3", "-directory", root + "/src"]
    if rng.random() < .4:
        ra += ["-encryption_type", rng.choice(["none", "aes128ctr"])]
    if rng.random() < .4:
        sa += ["-block_size_mbytes", "0.05"]
    if rng.random() < .4:
        sa += ["-enable_checksum"]
    kind = rng.choice(["rfail", "rfail", "sfail", "sfail", "killr", "kills", "missing", "short", "badid", "badkey", "noone", "aborts", "abortr", "gone", "dircreate"])
    renv, senv = {}, {}
    mustfail_s = mustfail_r = False
    if kind == "rfail":
        op = rng.choice(["pwrite", "open", "write", "fsync", "fallocate", "close"])
        renv = dict(LD_PRELOAD=core.build_faultio(), FIO_ROOT=root + "/dst", FIO_FAIL="%s:%d:%d" % (op, rng.randrange(1, 12), rng.choice([5, 28])))
    elif kind == "sfail":
        op = rng.choice(["open", "read", "opendir", "stat"])
        senv = dict(LD_PRELOAD=core.build_faultio(), FIO_ROOT=root + "/src", FIO_FAIL="%s:%d:%d" % (op, rng.randrange(1, 12), rng.choice([5, 13])))
    elif kind in ("missing", "short"):
        t = "z\na_missing_file\n" if kind == "missing" else "z\t%d\n" % (len(files["z"]) + rng.choice([1, 100, 10**6]))
        with open(root + "/m", "w") as f:
            f.write(t)
        sa += ["-manifest", root + "/m"]
        want = {"z": files["z"]}
        mustfail_s = mustfail_r = True
    elif kind in ("killr", "kills", "aborts", "abortr"):
        # slow enough to be hit
        sa += ["-avg_mbytes_per_sec", "0.15", "-max_mbytes_per_sec", "0.15", "-throttler_bucket_limit", "0.01"]
        if kind == "aborts":
            sa += ["-abort_after_seconds", "1"]
        if kind == "abortr":
            ra += ["-abort_after_seconds", "1"]
        mustfail_s = kind in ("kills", "aborts")
        mustfail_r = kind in ("killr", "abortr")
    elif kind in ("badid", "badkey", "gone"):
        mustfail_s = True
    elif kind == "noone":
        ra[ra.index("60")] = "5"
    elif kind == "dircreate":
        with open(root + "/dst/d0", "w") as f:
            f.write("in the way")
    r = Recv(wdt, root, ra, env=renv)
    s = None
    replay = {"kind": kind, "receiver": ra, "sender": sa, "renv": renv, "senv": senv}
    try:
        u = parse(r.url)
        if u is None:
            rc, out, err = r.end(5)
            if rc == 0:
                c.violation("zero-without-url", "%s: %r" % (kind, out[:300]), replay)
            c.add("no_url")
            return
        url = r.url
        if kind == "badid":
            url = re.sub(r"id=\d+", "id=1", url)
        elif kind == "badkey" and "Enc=" in url:
            i = url.index("Enc=") + 6
            url = url[:i] + ("0" if url[i] != "0" else "1") + url[i + 1:]
        elif kind == "badkey":
            mustfail_s = False
        elif kind == "gone":
            r.kill()
        if kind in ("killr", "kills"):
            def killer():
                time.sleep(.25 + rng.random() * .5)
                if kind == "killr":
                    try:
                        os.killpg(r.p.pid, rng.choice([signal.SIGKILL, signal.SIGTERM]))
                    except OSError:
                        pass
                else:
                    subprocess.call(["pkill", "-KILL", "-f", "--", root + "/src"])
            th = threading.Thread(target=killer)
            th.start()
        if kind != "noone":
            s = send(wdt, url, sa, "arg" if kind == "kills" else rng.choice(["stdin", "arg"]), rng, timeout=120, env=senv)
        if kind in ("killr", "kills"):
            th.join()
        rc, out, err = (None, b"", b"") if kind == "gone" else r.end(100)
        d = e2e.diff(want, root + "/dst", dirs=False) if kind != "dircreate" else e2e.diff(want, root + "/dst", dirs=False, extra_ok=("d0",))
        txt = "%s: sender %s receiver %s %s" % (kind, s and s.rc, rc, d[:3])
        log = (s.text[-700:] if s else "") + "\n-- receiver\n" + err[-700:].decode("latin-1")
        for what, t in (("s", s.text if s else ""), ("r", err.decode("latin-1"))):
            if "AddressSanitizer" in t or "runtime error" in t:
                c.violation("sanitizer-" + what, txt + "\n" + t[-1500:], replay)
        if s and s.timed_out or (rc is None and kind != "gone"):
            c.violation("hang-" + kind, txt + "\n" + log, replay)
        if s and s.rc == 0 and (d or mustfail_s):
            c.violation("sender-zero-" + kind, txt + "\n" + log, replay)
        if rc == 0 and (d or mustfail_r or kind in ("noone", "badid")):
            c.violation("receiver-zero-" + kind, txt + "\n" + log, replay)
        if s and rc == 0 and s.rc == 0:
            c.add("faults_survived")
        if kind != "gone" and out and bad_stdout(out, r.url):
            c.violation("stdout", "%s %r" % (kind, out[:400]), replay)
        if s and s.out:
            c.violation("sender-stdout", "%r" % s.out[:400], replay)
        c.case(("fault", kind, renv.get("FIO_FAIL"), senv.get("FIO_FAIL"), s and s.rc, rc), txt[:200])
        c.add("fault_" + kind)
        c.add("nonzero_statuses", int(bool(s and s.rc)) + int(bool(rc)))
    finally:
        r.kill()
        shutil.rmtree(root, ignore_errors=True)


def ports(c, wdt, seed):
    """Static ports, some of them taken."""
    rng = random.Random("c32p-%d" % seed)
    root = "%s/p%d" % (c.tmp, seed)
    e2e.fresh(root)
    files = {"a": rng.randbytes(50000), "d/b": rng.randbytes(70)}
    e2e.write_tree(root + "/src", files)
    os.makedirs(root + "/dst")
    n = rng.choice([1, 2, 4])
    held = []
    try:
        # a run of free ports outside the range the kernel hands out
        for _ in range(200):
            base = rng.randrange(11000, 30000)
            ss = []
            try:
                for i in range(n):
                    s = socket.socket(socket.AF_INET6)
                    s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
                    ss.append(s)
                    s.bind(("::", base + i))
                break
            except OSError:
                for s in ss:
                    s.close()
        else:
            c.inconcl("no free ports")
            return
        take = [i for i in range(n) if rng.random() < .4]
        for i, s in enumerate(ss):
            s.close()
        for i in take:
            s = socket.socket(socket.AF_INET6)
            s.bind(("::", base + i))
            s.listen(1)
            held.append(s)
        treat = rng.random() < .5
        ra = FAST + LONE + ["-start_port", str(base), "-num_ports", str(n), "-hostname", "127.0.0.1", "-max_retries", "2", "-sleep_millis", "10"]
        if treat:
            ra += ["-treat_fewer_port_as_error"]
        if rng.random() < .3:
            ra += ["-static_ports"]
        r = Recv(wdt, root, ra)
        tag = "n=%d base=%d taken=%s treat=%s" % (n, base, take, treat)
        replay = {"args": ra, "taken": take}
        try:
            if len(take) == n or (take and treat):
                rc, out, err = r.end(30)
                if rc == 0 or rc is None:
                    c.violation("zero-without-ports", "%s: %s %r" % (tag, rc, out[:300]), replay)
                if out:
                    c.violation("url-without-ports", "%s: %r" % (tag, out[:300]), replay)
                c.case(("ports", n, tuple(take), treat), tag + " -> %s" % rc)
                c.add("ports_refused")
                return
            u = parse(r.url)
            if u is None:
                rc, out, err = r.end(5)
                if take and "ddress already in use" not in err.decode("latin-1"):
                    c.inconcl("ports: " + tag)
                c.violation("no-url", "%s: %r %s" % (tag, r.first[:300], err[-700:].decode("latin-1")), replay)
                return
            free = [base + i for i in range(n) if i not in take]
            # (a port that is still retried may be listed as well)
            if not set(free) <= set(u[2]) <= set(range(base, base + n)) or len(set(u[2])) != len(u[2]):
                c.violation("url-ports", "%s: %r" % (tag, r.url), replay)
            s = send(wdt, r.url, FAST + ["-directory", root + "/src"], "stdin", rng)
            rc, out, err = r.end(60)
            d = e2e.diff(files, root + "/dst")
            if s.rc or rc or d:
                c.violation("ports-fail", "%s: %s %s %s\n%s" % (tag, s.rc, rc, d[:3], err[-800:].decode("latin-1")), replay)
            c.case(("ports", n, tuple(take), treat), tag + " -> s=%s r=%s" % (s.rc, rc))
            c.add("ports_ok")
        finally:
            r.kill()
    finally:
        for s in held:
            s.close()
        shutil.rmtree(root, ignore_errors=True)


def daemon(c, wdt, seed):
    """A receiver that never ends serves one sender after another."""
    rng = random.Random("c32d-%d" % seed)
    root = "%s/d%d" % (c.tmp, seed)
    e2e.fresh(root)
    os.makedirs(root + "/dst")
    ra = FAST + ["-run_as_daemon", "-start_port", "0", "-num_ports", str(rng.choice([1, 2, 4])), "-hostname", "127.0.0.1", "-overwrite", "-accept_window_millis", "500"]
    r = Recv(wdt, root, ra)
    try:
        if parse(r.url) is None:
            c.violation("no-url", "daemon: %r" % r.first[:300], {"args": ra})
            return
        all_ = {}
        for k in range(rng.choice([2, 3, 4])):
            e2e.fresh(root + "/src")
            files = small_tree(rng, root + "/src/r%d" % k)
            files = {"r%d/%s" % (k, f): b for f, b in files.items()}
            q = rng.random()
            if q < .3:
                # a session that breaks off in between
                sl = ["-avg_mbytes_per_sec", "0.05", "-max_mbytes_per_sec", "0.05", "-throttler_bucket_limit", "0.01", "-abort_after_seconds", "1"]
                s = send(wdt, r.url, FAST + sl + ["-directory", root + "/src"], "arg", rng, timeout=60)
                c.add("daemon_broken_sessions", int(s.rc != 0))
                if s.rc == 0:
                    all_.update(files)
                else:
                    time.sleep(rng.choice([0, 2.5]))
                    s = send(wdt, r.url, FAST + ["-max_transfer_retries", "6", "-directory", root + "/src"], "arg", rng, timeout=90)
                    if s.rc == 0:
                        d = [x for x in e2e.diff(files, root + "/dst", dirs=False) if not x.startswith("extra")]
                        if d:
                            c.violation("daemon-zero", "after a broken session: %s" % d[:3], {"args": ra})
                    # files may be there in part: do it once more below
                    continue
            s = send(wdt, r.url, FAST + ["-directory", root + "/src"], rng.choice(["arg", "stdin"]), rng, timeout=90)
            d = [x for x in e2e.diff(files, root + "/dst", dirs=False) if not x.startswith("extra")]
            if s.rc == 0 and d:
                c.violation("daemon-zero", "session %d: %s" % (k, d[:3]), {"args": ra})
            elif s.rc != 0 and q >= .3 and not c.n_bad:
                c.add("daemon_session_failed")
            if s.timed_out or s.crash():
                c.violation("daemon-sender:" + (s.crash() or "hang"), s.text[-1500:], {"args": ra})
            c.add("daemon_sessions")
            c.add("daemon_sessions_ok", int(s.rc == 0))
            if r.p.poll() is not None:
                c.violation("daemon-ended", "status %s after session %d: %s" % (r.p.returncode, k, open(r.err_path, "rb").read()[-1500:].decode("latin-1")), {"args": ra})
                break
        c.case(("daemon", seed), "%d sessions" % (k + 1))
    finally:
        r.kill()
        shutil.rmtree(root, ignore_errors=True)


def info(c, wdt):
    """Invocations that only say something."""
    rng = random.Random("c32i-%d" % c.seed)
    for a in (["--help"], ["-help"], ["--version"], ["-version"], ["-print_options"]):
        s = run([wdt] + a, timeout=30)
        if s.rc != 0 or s.timed_out:
            c.violation("info-status", "%s -> %s" % (a, s.rc), {"args": a})
        if not s.out:
            c.violation("info-silent", "%s" % a, {"args": a})
        c.case(("info", a[0]), "%s -> %s, %d bytes" % (a, s.rc, len(s.out)))


def lines_of(b):
    """What printing this log must show, in order."""
    out = []
    for _, t, f in wlog.entries(b):
        if t == wlog.HDR:
            out.append("Header entry, log-version %d recovery-id %s sender-ip %s config %d" %
                       (f[0], f[1].decode("latin-1"), f[2].decode("latin-1"), f[3]))
        elif t == wlog.CREATE:
            out.append("File created %s seq-id %d file-size %d" % (f[0].decode("latin-1"), f[1], f[2]))
        elif t == wlog.BLOCK:
            out.append("Block written, seq-id %d offset %d block-size %d" % f)
        elif t == wlog.INVAL:
            out.append("Invalidation entry for seq-id %d" % f)
        elif t == wlog.RESIZE:
            out.append("File resized, seq-id %d new file-size %d" % f)
        else:
            out.append("Directory")
    return out


def logs(c, wdt, seed):
    """Printing transfer logs, sound and damaged."""
    rng = random.Random("c32l-%d" % seed)
    root = "%s/l%d" % (c.tmp, seed)
    e2e.fresh(root)
    files = {"a%d" % i: rng.randbytes(rng.randrange(1, 60000)) for i in range(rng.randrange(1, 30))}
    e2e.write_tree(root + "/src", files)
    os.makedirs(root + "/dst")
    try:
        disk = rng.random() < .3
        for k in range(rng.choice([1, 1, 2])):
            r = Recv(wdt, root, FAST + LONE + ["-start_port", "0", "-num_ports", "2", "-hostname", "127.0.0.1", "-transfer_log_write_interval_ms", "20",
                                               "-recovery_id", "rid %d" % (seed % 7)] + (["-option_type", "disk"] if disk else []))
            sa = FAST + ["-directory", root + "/src"]
            if rng.random() < .7 and k == 0:
                sa += ["-avg_mbytes_per_sec", "0.2", "-max_mbytes_per_sec", "0.2", "-throttler_bucket_limit", "0.02", "-abort_after_seconds", "1", "-block_size_mbytes", "0.01"]
            send(wdt, r.url, sa, "arg", rng)
            r.end(60)
        p = root + "/dst/.wdt.log"
        if not os.path.exists(p):
            c.inconcl("no log")
            return
        b = open(p, "rb").read()
        for rep in range(6):
            e2e.fresh(root + "/x")
            x = b
            k = rng.randrange(4) if rep else 0
            if k == 1:
                x = b[:rng.randrange(len(b) + 1)]
            elif k == 2 and b:
                y = bytearray(b)
                for _ in range(rng.choice([1, 1, 3])):
                    y[rng.randrange(len(y))] ^= 1 << rng.randrange(8)
                x = bytes(y)
            elif k == 3:
                x = b + rng.randbytes(rng.randrange(1, 9))
            with open(root + "/x/.wdt.log", "wb") as f:
                f.write(x)
            os.utime(root + "/x/.wdt.log", (1000000000, 1000000000))
            if rng.random() < .3:
                os.chmod(root + "/x/.wdt.log", 0o600)
            st = os.stat(root + "/x/.wdt.log")
            s = run([wdt, "-parse_transfer_log", "-directory", root + "/x"] + rng.choice([[], [], ["-option_type", "disk"], ["-resume_using_dir_tree"], ["-recovery_id", "q"]]), timeout=30)
            now = os.stat(root + "/x/.wdt.log") if os.path.exists(root + "/x/.wdt.log") else None
            what = "%s log of %d bytes" % (["sound", "cut", "damaged", "extended"][k], len(x))
            if s.crash() or s.timed_out:
                c.violation("print-crash:" + (s.crash() or "hang"), what + s.text[-1200:], {"log": x.hex()[:4000]})
            if now is None or open(root + "/x/.wdt.log", "rb").read() != x or (now.st_ino, now.st_mode, now.st_mtime) != (st.st_ino, st.st_mode, st.st_mtime) \
                    or os.listdir(root + "/x") != [".wdt.log"]:
                c.violation("print-changes", what + ": now %s %s" % (now, os.listdir(root + "/x")), {"log": x.hex()[:4000]})
            try:
                want = lines_of(x)
            except wlog.Bad as e:
                want = None
            got = [re.sub(r"^\S+ \S+ +", "", l) for l in s.out.decode("latin-1").splitlines()]
            c.case(("log", k, len(x) // 64, want is None, s.rc), "%s -> %s, %d lines" % (what, s.rc, len(got)))
            c.add("log_lines_compared", len(got))
            if want is None:
                if s.rc == 0:
                    c.violation("print-zero-for-bad-log", what, {"log": x.hex()[:4000]})
                continue
            if k == 0 or (k in (1, 3) and s.rc == 0):
                if s.rc != 0:
                    c.violation("print-nonzero", "%s: %s %s" % (what, s.rc, s.text[-800:]), {"log": x.hex()[:4000]})
                bad = next((i for i in range(max(len(got), len(want))) if i >= len(got) or i >= len(want) or
                            not (got[i] == want[i] or want[i] == "Directory" and "irector" in got[i])), None)
                if bad is not None:
                    c.violation("print-lines", "%s: line %d is %r, want %r (%d/%d lines)" %
                                (what, bad, got[bad:bad + 1], want[bad:bad + 1], len(got), len(want)), {"log": x.hex()[:4000]})
    finally:
        r.kill()
        shutil.rmtree(root, ignore_errors=True)


def body(c):
    c.n_bad = 0
    plain = c.build("plain", "wdt", [], cli=True)
    asan = c.build("asan", "wdt", [], cli=True)
    base = c.seed * 1000003
    pick = lambda i: asan if i % 3 == 2 else plain
    jobs = [(good, i) for i in range(c.n(160, 4000))] + [(refuse, i) for i in range(c.n(36, 900))] + \
        [(fault, i) for i in range(c.n(90, 2400))] + [(ports, i) for i in range(c.n(24, 400))] + \
        [(logs, i) for i in range(c.n(20, 500))] + [(daemon, i) for i in range(c.n(10, 200))]
    random.Random(c.seed).shuffle(jobs)
    info(c, asan)
    c.pmap(lambda j: j[0](c, pick(j[1]), base + j[1]), jobs, 16)


if __name__ == "__main__":
    main(Check("C32", "exploration",
               "the tool itself, built from wdtCmdLine.cpp: sound invocations of every kind (URL by argument or standard input, "
               "manifests, forked, static ports, daemons) must print one URL an independent parser agrees with, exit zero and leave the "
               "named files; refused ones (arguments, URLs, manifests) exit non-zero without transferring and leave the receiver "
               "usable; faulty ones exit zero only over a complete tree; printed transfer logs are compared line by line with an "
               "independent reader and must stay as they are; distinct = kinds, options and outcomes",
               ["the receiver detached by -fork is judged by the tree only, its exit status is nobody's",
                "a second session of a daemon may be refused while it is still waiting for the first one"]),
         body)
