"""End-to-end transfers: trees, runs of harness/xfer, and their oracles."""
import hashlib, json, os, random, re, shutil, signal, stat, subprocess, tempfile, threading, time
from vlib import run, Res, VERIF
import core

ODD = ["sp ace", "tab\there", "quo\"te", "dollar$x", "per%cent", "semi;colon", "uni\u00e9\u4e2d", "new\nline",
       "-dash", "..dots", ".hidden", "x" * 200, "back\\slash", "st*r", "[br]", "a.b.c", "\u0001ctl", "tilde~", "#hash",
       "trailing ", "comma,", "eq=", "amp&"]


def content(rng, n):
    k = rng.random()
    if k < 0.85 or n < 100:
        return rng.randbytes(n)
    if k < 0.93:  # zeros with a few islands
        b = bytearray(n)
        for _ in range(3):
            p = rng.randrange(n)
            b[p:p + 20] = rng.randbytes(20)[:n - p]
        return bytes(b[:n])
    return (b"%07d\n" * 1 % rng.randrange(10**6)) * (n // 8) + b"t" * (n % 8)


def gen_tree(rng, root, kind=None, bs=65536, maxtotal=3_000_000, odd=True):
    """Makes a tree below root; returns {relative path: bytes}."""
    os.makedirs(root, exist_ok=True)
    kind = kind or rng.choice(["mixed", "mixed", "many", "big", "deep", "empty", "edges"])
    files = {}
    def name(i):
        if odd and rng.random() < 0.25:
            return rng.choice(ODD) + str(i)
        return "f%d" % i
    def put(p, n):
        files[p] = content(rng, n)
    if kind == "many":
        for i in range(rng.randrange(50, 250)):
            d = "d%d/" % rng.randrange(6) if rng.random() < .7 else ""
            put(d + name(i), rng.choice([0, 1, 10, 255, 256, 257, 1000, rng.randrange(5000)]))
    elif kind == "big":
        put(name(0), rng.randrange(maxtotal // 2, maxtotal))
        if rng.random() < .5:
            put("z", rng.randrange(1000))
    elif kind == "deep":
        d = ""
        for i in range(rng.randrange(5, 25)):
            d += "n%d/" % i
            if rng.random() < .6:
                put(d + name(i), rng.randrange(3 * bs) if rng.random() < .4 else rng.randrange(300))
        put(d + "leaf", 17)
    elif kind == "empty":
        for i in range(rng.randrange(1, 12)):
            put(("e%d/" % (i % 3) if i % 2 else "") + name(i), 0)
        if rng.random() < .5:
            put("one", 1)
    elif kind == "edges":
        for i, n in enumerate([bs - 1, bs, bs + 1, 2 * bs, 2 * bs + 1, 3 * bs - 1, 0, 1, 4096, 4095, 511, 512]):
            if rng.random() < .7:
                put(name(i), n)
        put("fin", bs)
    elif kind == "none":
        pass
    else:
        tot = 0
        for i in range(rng.randrange(3, 40)):
            n = rng.choice([0, rng.randrange(10), rng.randrange(3000), rng.randrange(3 * bs), rng.randrange(8 * bs)])
            if tot + n > maxtotal:
                n = 100
            tot += n
            d = rng.choice(["", "", "a/", "b/", "a/b/", "dir with space/"])
            put(d + name(i), n)
    write_tree(root, files)
    return files


def write_tree(root, files):
    os.makedirs(root, exist_ok=True)
    for p, b in files.items():
        q = os.path.join(root, p)
        os.makedirs(os.path.dirname(q), exist_ok=True)
        with open(q, "wb") as f:
            f.write(b)


def read_tree(root):
    """{relative path: bytes | ('link', target) | ('other', mode)}, plus directories."""
    out, dirs = {}, []
    rb = os.fsencode(root)
    for d, ds, fs in os.walk(rb):
        for x in ds:
            p = os.path.join(d, x)
            if os.path.islink(p):
                out[os.fsdecode(os.path.relpath(p, rb))] = ("link", os.readlink(p))
            else:
                dirs.append(os.fsdecode(os.path.relpath(p, rb)))
        for x in fs:
            p = os.path.join(d, x)
            rel = os.fsdecode(os.path.relpath(p, rb))
            st = os.lstat(p)
            if stat.S_ISREG(st.st_mode):
                with open(p, "rb") as f:
                    out[rel] = f.read()
            elif stat.S_ISLNK(st.st_mode):
                out[rel] = ("link", os.readlink(p))
            else:
                out[rel] = ("other", st.st_mode)
    return out, dirs


LOGS = {".wdt.log", ".wdt.log.bug"}


def diff(want, root, ignore=LOGS, extra_ok=(), dirs=True):
    """Differences between the wanted files and what is below root, as text."""
    got, gd = read_tree(root)
    d = []
    for p in sorted(want):
        w = want[p]
        g = got.get(p)
        if g is None:
            d.append("missing %r (%d bytes)" % (p, len(w)))
        elif isinstance(g, tuple):
            d.append("%r is %r" % (p, g))
        elif g != w:
            if len(g) != len(w):
                d.append("%r has length %d, want %d" % (p, len(g), len(w)))
            else:
                bad = next(i for i in range(len(w)) if g[i] != w[i])
                n = sum(1 for i in range(0, len(w), max(1, len(w) // 2000)) if g[i] != w[i])
                d.append("%r differs from offset %d (length %d, %d of samples, zero there: %s)" %
                         (p, bad, len(w), n, not any(g[bad:bad + 16])))
    for p in sorted(got):
        if p not in want and p not in ignore and p not in extra_ok:
            d.append("extra %r" % p)
    if dirs:
        wd = set()
        for p in list(want) + list(extra_ok):
            while "/" in p:
                p = p.rsplit("/", 1)[0]
                wd.add(p)
        for x in gd:
            if x not in wd:
                d.append("extra directory %r" % x)
    return d


class X:
    """One finished run of the transfer driver."""
    def __init__(self, res, args):
        self.res, self.args = res, args
        self.j = [json.loads(l[5:]) for l in res.out.decode("latin-1").splitlines() if l.startswith("JSON ")]
        self.d = self.j[-1] if self.j else None

    def rep(self, side):
        return (self.d or {}).get(side)

    def err(self, side):
        r = self.rep(side)
        return r["summary"]["err"] if r else None

    def ok(self, side):
        return self.err(side) == "OK"

    @property
    def both(self):
        return self.ok("s") and self.ok("r")

    def brief(self):
        if not self.d:
            return "no result rc=%s timeout=%s" % (self.res.rc, self.res.timed_out)
        return "s=%s r=%s s_ms=%s r_ms=%s conns=%s" % (self.err("s"), self.err("r"), self.d.get("s_ms"),
                                                      self.d.get("r_ms"), self.d.get("conns"))


def xfer(binary, args, timeout=90, env=None, prefix=()):
    cmd = list(prefix) + [binary] + ["%s=%s" % a for a in args]
    return X(run(cmd, timeout=timeout, env=env), args)


def rand_opts(rng, small=True, faulty=False):
    """A random configuration: list of (key, value) for the driver."""
    o = []
    ports = rng.choice([1, 1, 2, 3, 4, 8])
    o.append(("b.num_ports", ports))
    bs = rng.choice([-1, 0.01, 0.0625, 0.0625, 0.1, 0.25, 1, 16])
    o.append(("s.block_size_mbytes", bs))
    o.append(("s.buffer_size", rng.choice([4096, 8192, 10000, 65536, 262144, 262144, 1 << 20])))
    o.append(("r.buffer_size", rng.choice([4096, 8192, 20000, 65536, 262144, 262144, 1 << 20])))
    enc = rng.choice(["none", "aes128ctr", "aes128gcm", "aes128gcm"])
    o.append(("b.encryption_type", enc))
    o.append(("s.enable_checksum", rng.choice(["true", "false"])))
    if enc == "aes128gcm":
        o.append(("s.encryption_tag_interval_bytes", rng.choice([0, 1000, 4096, 65536, 4194304])))
    if rng.random() < .3:
        o.append(("s.iv_change_interval_mb", rng.choice([0, 1])))
    if rng.random() < .3:
        o.append(("s.two_phases", "true"))
    if rng.random() < .2:
        o.append(("s.odirect_reads", "true"))
    if rng.random() < .3:
        o.append(("r.disable_preallocation", "true"))
    if rng.random() < .3:
        o.append(("r.fsync", "false"))
    if rng.random() < .3:
        o.append(("r.disk_sync_interval_mb", rng.choice([-1, 0, 0.01, 0.5])))
    if rng.random() < .3:
        o.append(("s.open_files_during_discovery", rng.choice([-1, 1, 5])))
    if rng.random() < .3:
        o.append(("b.enable_perf_stat_collection", "true"))
    if rng.random() < .4:
        o.append(("s.full_reporting", "true"))
    if rng.random() < .2:
        o.append(("s.send_buffer_size", rng.choice([2048, 20000])))
    if rng.random() < .2:
        o.append(("r.receive_buffer_size", rng.choice([2048, 20000])))
    if rng.random() < .2:
        o.append(("b.enable_heart_beat", "false"))
    if rng.random() < .2:
        o.append(("r.overwrite", "true"))
    if rng.random() < .2:
        o.append(("r.skip_fadvise", "true"))
    if rng.random() < .15:
        o.append(("b.ipv4", "true"))
    if rng.random() < .15:
        o.append(("report_cb", 1))
        o.append(("b.progress_report_interval_millis", 20))
    if rng.random() < .15:
        o.append(("s.avg_mbytes_per_sec", rng.choice([20, 100])))
    if rng.random() < .2:
        o.append(("async", 1))
    return o


def odict(o):
    return {k: v for k, v in o}


def okey(o):
    return tuple(sorted((k, str(v)) for k, v in o))


def fresh(p):
    shutil.rmtree(p, ignore_errors=True)
    os.makedirs(p)
    return p


def settled(c, tries, once, why):
    """once() -> (good, failkey, desc, replay).  A failing case is run again, as
    timeouts under load are no violation of anything; it counts when it fails
    in every try."""
    last = None
    for i in range(tries):
        last = once(i)
        if last[0]:
            if i:
                c.inconcl("%s: passed on try %d: %s" % (why, i + 1, last[2]))
            return True
        if last[1].startswith("!"):        # certain at once
            break
        if i and (last[1].startswith("no-result") or c.enough()):
            break
    c.violation(last[1].lstrip("!"), last[2], last[3])
    return False


def conn_bytes(x):
    return {(p, n): (s, r) for p, n, s, r, _ in x.d["conns"]}


def only_leftovers(want, root):
    """Whether every wanted file is there with its bytes, at most with further
    bytes behind them, or with further files around."""
    got, _ = read_tree(root)
    return all(isinstance(got.get(p), bytes) and got[p][:len(w)] == w for p, w in want.items())


def pair(binary, rargs, sargs, renv=None, senv=None, kill=None, timeout=90, wait=8):
    """Receiver and sender in processes of their own; kill = (who, seconds).
    Returns (receiver X, sender X), the latter None when there was no URL."""
    from vlib import SAN_ENV
    e = dict(os.environ)
    e.update(SAN_ENV)
    def start(args, env):
        f = [tempfile.TemporaryFile(), tempfile.TemporaryFile()]
        p = subprocess.Popen([binary] + ["%s=%s" % a for a in args], stdin=subprocess.DEVNULL, stdout=f[0], stderr=f[1],
                             env=dict(e, **(env or {})), start_new_session=True)
        return p, f
    def text(f):
        f.seek(0)
        return f.read()
    def end(p, f, t0, args):
        to = False
        try:
            p.wait(timeout=max(1, timeout - (time.time() - t0)))
        except subprocess.TimeoutExpired:
            to = True
            p.kill()
            p.wait()
        r = X(Res([binary], p.returncode, text(f[0]), text(f[1]), to, time.time() - t0), args)
        f[0].close()
        f[1].close()
        return r
    t0 = time.time()
    rp, rf = start(rargs, renv)
    url = None
    while time.time() - t0 < wait and url is None:
        m = re.search(rb"URL (\S+)\n", os.pread(rf[0].fileno(), 1 << 16, 0))
        if m:
            url = m.group(1).decode()
        elif rp.poll() is not None:
            break
        else:
            time.sleep(0.005)
    if url is None:
        return end(rp, rf, t0 - timeout, rargs), None
    sp, sf = start(list(sargs) + [("url", url)], senv)
    if kill:
        time.sleep(kill[1])
        try:
            (rp if kill[0] == "r" else sp).kill()
        except OSError:
            pass
    s = end(sp, sf, t0, sargs)
    r = end(rp, rf, t0, rargs)
    return r, s
