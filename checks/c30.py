import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "tools"))
from vlib import *
import core, e2e, select, shlex, socket, stat

# name, type, documented default, default of the disk type
TABLE = [l.split("|") for l in """
start_port|int|22356|-
num_ports|int|8|3
static_ports|bool|0|-
ipv6|bool|0|-
ipv4|bool|0|-
dscp|int|0|-
ignore_open_errors|bool|0|-
two_phases|bool|0|-
follow_symlinks|bool|0|-
skip_writes|bool|0|-
backlog|int|1|-
buffer_size|int|262144|-
max_retries|int|20|-
max_transfer_retries|int|3|-
sleep_millis|int|50|-
block_size_mbytes|double|16|-1
avg_mbytes_per_sec|double|-1|-
max_mbytes_per_sec|double|0|-
throttler_bucket_limit|double|0|-
throttler_log_time_millis|int|0|-
progress_report_interval_millis|int|?|-
full_reporting|bool|0|-
include_regex|string||-
exclude_regex|string||-
prune_dir_regex|string||-
accept_timeout_millis|int|100|-
max_accept_retries|int|500|-
accept_window_millis|int|2000|-
read_timeout_millis|int|5000|-
write_timeout_millis|int|5000|-
connect_timeout_millis|int|1000|-
abort_check_interval_millis|int|200|-
disk_sync_interval_mb|double|0.5|-
throughput_update_interval_millis|int|500|-
enable_checksum|bool|0|-
enable_perf_stat_collection|bool|0|-
transfer_log_write_interval_ms|int|100|-
enable_transfer_log_compaction|bool|0|-
enable_download_resumption|bool|0|-
keep_transfer_log|bool|1|-
disable_sender_verification_during_resumption|bool|0|-
global_sender_limit|int|0|-
global_receiver_limit|int|0|-
namespace_sender_limit|int|0|-
namespace_receiver_limit|int|1|-
odirect_reads|bool|0|-
disable_preallocation|bool|0|1
resume_using_dir_tree|bool|0|1
open_files_during_discovery|int|0|-
overwrite|bool|0|-
drain_extra_ms|int|500|-
encryption_type|string|aes128gcm|-
encryption_tag_interval_bytes|int|4194304|-
send_buffer_size|int|0|-
receive_buffer_size|int|0|-
delete_extra_files|bool|0|-
skip_fadvise|bool|0|-
fsync|bool|1|-
enable_heart_beat|bool|1|-
iv_change_interval_mb|int|32768|-
""".strip().split("\n")]
BYNAME = {t[0]: t for t in TABLE}
FAST = ["-read_timeout_millis", "1500", "-write_timeout_millis", "1500", "-connect_timeout_millis", "500", "-abort_check_interval_millis", "50", "-max_accept_retries", "60"]


def build_optio():
    os.makedirs(core.BUILD, exist_ok=True)
    out, src = os.path.join(core.BUILD, "optio.so"), os.path.join(VERIF, "harness", "optio.c")
    if not os.path.exists(out) or os.path.getmtime(out) < os.path.getmtime(src):
        tmp = out + ".%d" % os.getpid()
        subprocess.check_call(["gcc", "-O1", "-w", "-shared", "-fPIC", "-o", tmp, src, "-ldl"])
        os.rename(tmp, out)
    return out


def same(ty, a, b):
    if ty == "double":
        x, y = float(a), float(b)
        return abs(x - y) <= 1e-5 * max(abs(x), abs(y))
    if ty == "bool":
        return (a in ("1", "true")) == (b in ("1", "true"))
    return a == b


def value(rng, t):
    if rng.random() < .2:
        return {"1": "true", "0": "false"}[t[2]] if t[1] == "bool" else t[2]
    if t[1] == "bool":
        return rng.choice(["true", "false"])
    if t[1] == "string":
        return rng.choice(["", "a.*b", "x y", "none", "[0-9]+\\.txt", "-x", "a=b"])
    if t[1] == "double":
        return rng.choice(["-1", "0", "0.25", "17.5", "1000000", "1e-3"])
    return rng.choice(["-1", "0", "2147483647", str(rng.randrange(100000))])


def printed(c, wdt, seed):
    """The values the tool says it uses."""
    rng = random.Random("c30p-%d" % seed)
    args, want, spec = [], {t[0]: t[2] for t in TABLE}, set()
    dens = rng.choice([.03, .1, .3, .8])
    order = TABLE[:]
    rng.shuffle(order)
    for t in order:
        if rng.random() > dens and not (t[3] != "-" and rng.random() < .3):
            continue
        for _ in range(rng.choice([1, 1, 1, 2])):       # the last one counts
            v = value(rng, t)
            d = rng.choice(["-", "--"])
            k = rng.random()
            if t[1] == "bool":
                if v == "true":
                    args += [rng.choice([d + t[0], d + t[0] + "=true", d + t[0] + "=1"])]
                else:
                    args += [rng.choice([d + "no" + t[0], d + t[0] + "=false", d + t[0] + "=0"])]
            elif k < .5:
                args += [d + t[0] + "=" + v]
            else:
                args += [d + t[0], v]
            want[t[0]] = v
        spec.add(t[0])
    ty = "flash"
    if rng.random() < .7:
        ty = rng.choice(["disk", "disk", "disk", "flash", "", "Disk", "disk ", "ssd", "flashy"])
        args.insert(rng.choice([0, len(args)]), "-option_type=" + ty)
    if ty == "disk":
        for t in TABLE:
            if t[3] != "-" and t[0] not in spec:
                want[t[0]] = t[3]
    if "start_port" in spec and "static_ports" not in spec:
        want["static_ports"] = "1"
    r = run([wdt, "-print_options"] + args, timeout=30)
    got = {}
    for l in r.out.decode("latin-1").split("\n"):
        m = re.match(r"wdt>\t(\w+) (.*)$", l)
        if m:
            got[m.group(1)] = m.group(2)
    rep = {"args": args}
    if r.timed_out or r.rc or not got:
        c.violation("print-fails", "%s -> %s\n%s" % (args, r.rc, r.text[-500:]), rep)
        return
    for t in TABLE:
        if t[0] not in got:
            c.violation("print-missing", t[0], rep)
        elif want[t[0]] == "?":
            # default of the progress interval depends on whether it is a terminal
            pass
        elif not same(t[1], got[t[0]], want[t[0]]):
            c.violation("print-value", "%s is %r, not %r: type %r %s" % (t[0], got[t[0]], want[t[0]], ty, args), rep)
    if ty not in ("disk", "flash") and "nvalid option type" not in r.text:
        c.violation("unknown-type-silent", "type %r: no word about it" % ty, rep)
    c.case(("print", tuple(args)), "print type %r %s" % (ty, args))
    c.add("print_flags", len(spec))
    c.add("print_type_" + (ty if ty in ("disk", "flash") else "unknown"))


def trace(path):
    out = []
    if os.path.exists(path):
        for l in open(path, errors="surrogateescape"):
            out.append(l.rstrip("\n").split(" "))
    return out


def ev(tr, name, narg):
    """Events name: list of (ints..., path)"""
    return [tuple(int(x) for x in e[1:1 + narg]) + (" ".join(e[1 + narg:]),) for e in tr if e[0] == name]


class Rcv:
    def __init__(self, cmd, env, err):
        e = dict(os.environ)
        e.update(SAN_ENV)
        e.update(env)
        self.err = err
        self.p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=open(err, "wb"), env=e, start_new_session=True)
        self.url = ""
        if select.select([self.p.stdout], [], [], 20)[0]:
            self.url = self.p.stdout.readline().decode("latin-1").strip()

    def end(self, t=60):
        try:
            self.p.wait(t)
            rc = self.p.returncode
        except subprocess.TimeoutExpired:
            rc = None
        self.kill()
        return rc

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        self.p.wait()
        self.p.stdout.close()


def traced(c, wdt, lib, seed, attempt=0):
    """One transfer; every option set shows in the calls made."""
    rng = random.Random("c30t-%d" % seed)
    root = os.path.realpath("%s/t%d" % (c.tmp, seed))
    e2e.fresh(root)
    os.makedirs(root + "/src/sub")
    os.makedirs(root + "/dst")
    files = {}
    for i in range(rng.randrange(1, 5)):
        files[rng.choice(["", "sub/"]) + "f%d" % i] = rng.randbytes(rng.choice([0, 1, 4096, 70000, 300001, rng.randrange(3000000)]))
    for f, b in files.items():
        open(root + "/src/" + f, "wb").write(b)
    R, S = {}, {}                # options of the receiver, the sender

    def opt(where, name, v, p):
        if rng.random() < p:
            for w in where:
                w[name] = v
            return True
        return False
    disk = {"r": rng.random() < .2, "s": rng.random() < .2}
    opt([R], "num_ports", rng.choice([1, 2, 5, 8]), .7)
    opt([R], "backlog", rng.choice([1, 2, 7, 64]), .4)
    fam = rng.choice(["", "", "4", "6", "46"])
    for w in (R, S):
        if "4" in fam:
            w["ipv4"] = True
        if "6" in fam:
            w["ipv6"] = True
    dscp = rng.choice([0, 0, 10, 46, 63])
    if dscp:
        opt([S], "dscp", dscp, .7)
        opt([R], "dscp", dscp, .7)
    opt([S], "send_buffer_size", rng.choice([8192, 65536, 0, -1]), .4)
    opt([R], "receive_buffer_size", rng.choice([8192, 65536, 0, -1]), .4)
    opt([R], "skip_writes", True, .12)
    opt([R], "overwrite", rng.choice([True, False]), .4)
    opt([R], "disable_preallocation", rng.choice([True, True, False]), .4)
    opt([R], "fsync", rng.choice([True, False, False]), .5)
    opt([R], "disk_sync_interval_mb", rng.choice([-1, 0, .1, 1]), .5)
    opt([R], "skip_fadvise", True, .35)
    opt([S], "skip_fadvise", True, .35)
    opt([S], "odirect_reads", True, .3)
    opt([S], "block_size_mbytes", rng.choice([-1, 0, .05, .1, 1, 16]), .6)
    opt([S], "buffer_size", rng.choice([1, 65536, 70000, 262144, 1000000]), .5)
    opt([R], "buffer_size", rng.choice([1, 65536, 131072, 262144]), .3)
    opt([S], "open_files_during_discovery", rng.choice([-1, 0, 1, 2]), .3)
    opt([R], "encryption_type", rng.choice(["none", "aes128ctr", "aes128gcm"]), .5)
    opt([R], "read_timeout_millis", rng.choice([800, 2500]), .3)
    opt([S], "write_timeout_millis", rng.choice([800, 2500]), .3)
    opt([R, S], "abort_check_interval_millis", rng.choice([0, -1, 30, 10000]), .3)
    opt([R], "enable_checksum", True, .2)
    opt([S], "enable_checksum", True, .2)
    opt([S], "two_phases", True, .2)
    opt([S], "full_reporting", True, .2)
    existing = rng.random() < .25 and any(files.values())
    if existing:
        victim = rng.choice(sorted(f for f in files))
        os.makedirs(os.path.dirname(root + "/dst/" + victim), exist_ok=True)
        open(root + "/dst/" + victim, "wb").write(b"old")
    static = rng.random() < .3
    base = 0
    if static:
        n = R.get("num_ports", 3 if disk["r"] else 8)
        for _ in range(100):
            base = rng.randrange(11000, 30000)
            ok = True
            for k in range(n):
                s = socket.socket(socket.AF_INET6)
                try:
                    s.bind(("::", base + k))
                except OSError:
                    ok = False
                s.close()
            if ok:
                break
        R["start_port"] = base

    def argv(w, d):
        a = list(FAST)
        if d:
            a += ["-option_type", "disk"]
        for k, v in w.items():
            a += ["-%s=%s" % (k, ("true" if v else "false") if isinstance(v, bool) else v)]
        return a
    ra, sa = argv(R, disk["r"]), argv(S, disk["s"])
    rep = {"receiver": ra, "sender": sa, "sizes": {f: len(b) for f, b in files.items()}, "existing": existing}

    def V(k, d):
        c.violation(k, "%s: r=%s s=%s" % (d, " ".join(ra[10:]), " ".join(sa[10:])), rep)
    host = "::1" if fam == "6" else "127.0.0.1"
    rtf, stf = root + "/rt", root + "/st"
    env = {"LD_PRELOAD": lib, "OPT_ROOT": root}
    r = Rcv([wdt, "-directory", root + "/dst", "-hostname", host] + ra, dict(env, OPT_TRACE=rtf), root + "/rerr")
    try:
        if not r.url.startswith("wdt://"):
            r.end(5)
            if static and attempt < 3:
                return traced(c, wdt, lib, seed, attempt + 1)
            V("no-url", r.url + open(r.err, errors="replace").read()[-600:])
            return
        s = run([wdt, "-directory", root + "/src"] + sa + ["-"], env=dict(env, OPT_TRACE=stf), stdin=(r.url + "\n").encode(), timeout=90)
        rrc = r.end(60)
    finally:
        r.kill()
    rt, st = trace(rtf), trace(stf)
    over = R.get("overwrite", False)
    skip = R.get("skip_writes", False)
    refused = existing and not over and not skip
    rep["rc"] = (s.rc, rrc)
    if refused:
        if s.rc == 0:
            V("overwrite-ignored", "an existing file did not stop the transfer")
        if open(root + "/dst/" + victim, "rb").read() != b"old":
            V("overwrite-ignored", "an existing file was changed")
        c.add("trace_refused")
    elif s.rc != 0 or rrc != 0:
        if attempt < 3:
            c.add("trace_retry")
            return traced(c, wdt, lib, seed, attempt + 1)
        V("transfer-fails", "sender %s receiver %s %s" % (s.rc, rrc, s.text[-500:]))
        return
    # ---- ports
    nports = R.get("num_ports", 3 if disk["r"] else 8)
    ls = [e for e in ev(rt, "listen", 4) if e[3] == 0]
    ports = sorted({e[1] for e in ls})
    if len(ports) != nports:
        V("num-ports", "listens on %d ports, not %d" % (len(ports), nports))
    if static and ports != list(range(base, base + nports)):
        V("start-port", "listens on %s, not from %d" % (ports, base))
    cn = {e[1] for e in ev(st, "connect", 2)}
    if not cn <= set(ports):
        V("connect-port", "%s not among %s" % (cn, ports))
    # ---- address families (ipv4 takes precedence)
    wantf = {socket.AF_INET} if "4" in fam else {socket.AF_INET6} if "6" in fam else {socket.AF_INET, socket.AF_INET6}
    if {e[0] for e in ls} - wantf:
        V("family", "listens on families %s with %r" % ({e[0] for e in ls}, fam))
    if {e[0] for e in ev(st, "connect", 2)} - wantf:
        V("family", "connects with families %s with %r" % ({e[0] for e in ev(st, "connect", 2)}, fam))
    if any(e[2] != R.get("backlog", 1) for e in ls):
        V("backlog", "%s" % {e[2] for e in ls})
    # ---- socket options
    for who, w, tr in (("receiver", R, rt), ("sender", S, st)):
        so = ev(tr, "sockopt", 5)
        d = w.get("dscp", 0)
        tos = [e for e in so if (e[1], e[2]) in ((socket.IPPROTO_IP, socket.IP_TOS), (socket.IPPROTO_IPV6, socket.IPV6_TCLASS))]
        if d == 0 and any(e[3] for e in tos):
            V("dscp", "%s: set without being asked" % who)
        if d and (who == "sender" or s.rc == 0):
            good = [e for e in tos if e[4] == 0 and e[3] == d << 2]
            if not good or any(e[4] == 0 and e[3] != d << 2 for e in tos):
                V("dscp", "%s: dscp %d not set on its connections (%s)" % (who, d, tos[:3]))
        nm, lv = ("receive_buffer_size", socket.SO_RCVBUF) if who == "receiver" else ("send_buffer_size", socket.SO_SNDBUF)
        b = w.get(nm, 0)
        bs = [e for e in so if e[1] == socket.SOL_SOCKET and e[2] in (socket.SO_RCVBUF, socket.SO_SNDBUF)]
        if b <= 0 and bs:
            V(nm, "%s: set without being asked" % who)
        if b > 0 and (not bs or any(e[2] != lv or e[3] != b for e in bs)):
            V(nm, "%s: %s" % (who, bs[:3]))
        ab = w.get("abort_check_interval_millis", 50)
        for o, code in (("read_timeout_millis", socket.SO_RCVTIMEO), ("write_timeout_millis", socket.SO_SNDTIMEO)):
            t = w.get(o, 1500)
            want = min(t, ab) if ab > 0 else t
            got = {int(e[2]) for e in tr if e[0] == "socktime" and int(e[1]) == code}
            if got and got != {want}:
                V(o, "%s: %s, not %d" % (who, got, want))
    # ---- writing
    wr = {}
    for e in ev(rt, "write", 1):
        wr.setdefault(e[1], []).append(e[0])
    dst = {f: "dst/" + f for f in files}
    if skip:
        if any(p in wr for p in dst.values()):
            V("skip-writes", "files were written")
        left = [f for f in files if os.path.exists(root + "/dst/" + f) and not (existing and f == victim)]
        if left:
            V("skip-writes", "files were made: %s" % left[:3])
    elif not refused:
        d = e2e.diff(files, root + "/dst")
        if d:
            V("content", "%s" % d[:3])
    if not skip and not refused:
        prealloc = not R.get("disable_preallocation", disk["r"])
        fa = {}
        for e in ev(rt, "falloc", 2):
            fa.setdefault(e[2], []).append(e[:2])
        sfr, fsy, fad = {}, {}, {}
        for e in ev(rt, "sfr", 2):
            sfr.setdefault(e[2], []).append(e[:2])
        for e in ev(rt, "fsync", 0):
            fsy[e[0]] = fsy.get(e[0], 0) + 1
        for e in ev(rt, "fadv", 3):
            fad.setdefault(e[3], []).append(e[:2])
        bsz = S.get("block_size_mbytes", -1 if disk["s"] else 16)
        bsz = int(bsz * 1048576)
        for f, b in files.items():
            p = dst[f]
            nb = 1 if bsz <= 0 else max(1, -(-len(b) // bsz))
            if len(b):
                if prealloc and [x for x in fa.get(p, [])] != [(0, len(b))]:
                    V("preallocation", "%s of %d bytes: %s" % (f, len(b), fa.get(p)))
                if not prealloc and p in fa:
                    V("preallocation", "%s: allocated though disabled" % f)
            if R.get("fsync", True):
                if fsy.get(p, 0) < nb and len(b):
                    V("fsync", "%s: %d syncs, %d blocks" % (f, fsy.get(p, 0), nb))
            elif p in fsy:
                V("fsync", "%s: synced though switched off" % f)
            iv = R.get("disk_sync_interval_mb", .5)
            if iv < 0:
                if p in sfr:
                    V("disk-sync", "%s: ranges synced though switched off" % f)
            elif len(b):
                rg = sorted(sfr.get(p, []))
                at = 0
                for o, n in rg:
                    if o != at:
                        break
                    at += n
                if at != len(b):
                    V("disk-sync", "%s of %d bytes: %s" % (f, len(b), rg[:6]))
                lim = int(iv * 1048576) + max(65536, -(-R.get("buffer_size", 262144) // 4096) * 4096)
                if any(n > lim for _, n in rg):
                    V("disk-sync", "%s: ranges of up to %d with an interval of %g MB" % (f, max(n for _, n in rg), iv))
                if iv * 1048576 >= len(b) and len(rg) > nb:
                    V("disk-sync", "%s of %d bytes: %d ranges of %d blocks, interval %g MB" % (f, len(b), len(rg), nb, iv))
            if R.get("skip_fadvise"):
                if p in fad:
                    V("skip-fadvise", "receiver: %s" % f)
            elif len(b) and p not in fad:
                V("skip-fadvise", "receiver: cache kept for %s" % f)
    # ---- reading
    op, pr, sf = {}, {}, {}
    for e in ev(st, "open", 2):
        if e[2].startswith("src/") and not e[0] & os.O_DIRECTORY:
            op.setdefault(e[2], []).append(e[0])
    for e in ev(st, "pread", 3):
        pr.setdefault(e[3], []).append(e[:3])
    for e in ev(st, "fadv", 3):
        sf.setdefault(e[3], []).append(e)
    buf = max(S.get("buffer_size", 262144), 1)
    direct = S.get("odirect_reads", False)
    for f, b in files.items():
        p = "src/" + f
        if p not in op:
            if len(b) and not refused:
                V("read", "%s never opened" % f)
            continue
        if any(bool(x & os.O_DIRECT) != direct for x in op[p]):
            V("odirect-reads", "%s: flags %s" % (f, [oct(x) for x in op[p]]))
        big = max([x[0] for x in pr.get(p, [])] or [0])
        lim = -(-max(buf, 5000) // 4096) * 4096
        if big > lim + 61440:
            V("buffer-size", "%s: reads of %d with buffers of %d" % (f, big, buf))
        blk = len(b)
        q = S.get("block_size_mbytes", -1 if disk["s"] else 16)
        if q > 0:
            blk = min(blk, int(q * 1048576))
        if big and not direct and big < min(buf, blk):
            V("buffer-size", "%s: reads of only %d with buffers of %d" % (f, big, buf))
        if S.get("skip_fadvise") and p in sf:
            V("skip-fadvise", "sender: %s" % f)
        if not S.get("skip_fadvise") and not direct and len(b) and p not in sf and not refused:
            V("skip-fadvise", "sender: cache kept for %s" % f)
    # ---- what the transfer says about itself
    if not refused:
        m = re.findall(r"Number of blocks transferred = (\d+)", s.text)
        q = S.get("block_size_mbytes", -1 if disk["s"] else 16)
        n = sum(1 if q <= 0 else max(1, -(-len(b) // int(q * 1048576))) for b in files.values())
        if not m:
            c.inconcl("no count of blocks in the report")
        elif int(m[-1]) != n:
            V("block-size", "%s blocks, not %d" % (m[-1], n))
    enc = R.get("encryption_type", "aes128gcm")
    e = re.search(r"[?&]Enc=(\d+)", r.url)
    if (e.group(1) if e else "0") != {"none": "0", "aes128ctr": "1", "aes128gcm": "2"}[enc]:
        V("encryption-type", "%s: %s" % (enc, e and e.group(1)))
    c.case(("trace", seed), "r=%s s=%s: %d+%d calls seen" % (" ".join(ra[10:]), " ".join(sa[10:]), len(rt), len(st)))
    c.add("trace_transfers")
    c.add("trace_calls", len(rt) + len(st))
    c.add("trace_options", len(R) + len(S))
    shutil.rmtree(root, ignore_errors=True)


def timing(c, wdt, seed):
    """Options that say how long to wait."""
    rng = random.Random("c30w-%d" % seed)
    root = "%s/w%d" % (c.tmp, seed)
    e2e.fresh(root)
    os.makedirs(root + "/src")
    os.makedirs(root + "/dst")
    open(root + "/src/f", "wb").write(b"x" * 100)
    kind = ["accept", "dead", "silent", "full", "forever", "rate"][seed % 6]

    def V(k, d, a):
        c.violation(k, "%s: %s" % (d, " ".join(a)), {"args": a})
    if kind in ("accept", "forever"):
        n, t = rng.choice([(3, 200), (1, 600), (10, 100), (20, 30)])
        if kind == "forever":
            n = rng.choice([0, -1])
        ab = rng.choice([-1, 0, 20, 200, 10000])
        a = ["-num_ports", str(rng.choice([1, 3])), "-start_port", "0", "-max_accept_retries=%d" % n, "-accept_timeout_millis=%d" % t, "-abort_check_interval_millis=%d" % ab]
        r = run([wdt, "-directory", root + "/dst"] + a, timeout=4 if kind == "forever" else 40)
        if kind == "forever":
            if not r.timed_out:
                V("accept-forever", "gave up after %.1f s" % r.wall, a)
        else:
            if r.timed_out or r.rc == 0:
                V("accept-limit", "rc %s after %.1f s" % (r.rc, r.wall), a)
            elif r.wall < n * t / 1000. - .05:
                V("accept-limit", "gave up after %.2f s, not %.2f" % (r.wall, n * t / 1000.), a)
            elif r.wall > n * t / 1000. + 8:
                V("accept-limit", "gave up only after %.2f s, not %.2f" % (r.wall, n * t / 1000.), a)
        c.case(("accept", seed), "%s: %.2f s" % (" ".join(a), r.wall))
    elif kind == "rate":
        size = rng.choice([1500000, 3000000])
        open(root + "/src/f", "wb").write(os.urandom(size))
        rate = rng.choice([.8, 1.5, 3])
        a = ["-avg_mbytes_per_sec=%g" % rate] + (["-max_mbytes_per_sec=%g" % (rate * 1.1), "-throttler_bucket_limit=0.1"] if rng.random() < .5 else [])
        r = Rcv([wdt, "-directory", root + "/dst", "-hostname", "127.0.0.1"] + FAST, {}, root + "/rerr")
        try:
            t0 = time.time()
            s = run([wdt, "-directory", root + "/src"] + FAST + a + ["-"], stdin=(r.url + "\n").encode(), timeout=90)
            w = time.time() - t0
            r.end(30)
        finally:
            r.kill()
        least = size / 1048576. / rate - .7
        if s.rc:
            c.inconcl("rate: transfer failed")
        elif w < least:
            V("avg-rate", "%d bytes in %.2f s" % (size, w), a)
        c.case(("rate", seed), "%s: %d bytes in %.2f s" % (" ".join(a), size, w))
    else:
        # a port where nobody listens, answers, or even accepts
        ls = socket.socket(socket.AF_INET)
        ls.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        ls.bind(("127.0.0.1", 0))
        port = ls.getsockname()[1]
        held = []
        if kind == "silent":
            ls.listen(64)
        elif kind == "full":
            ls.listen(0)
            for _ in range(3):
                x = socket.socket(socket.AF_INET)
                x.setblocking(False)
                try:
                    x.connect(("127.0.0.1", port))
                except OSError:
                    pass
                held.append(x)
            time.sleep(.1)
        else:
            ls.close()
        n, sl = rng.choice([(2, 100), (5, 100), (1, 20), (20, 20)])
        ab = rng.choice([-1, 0, 20, 200, 10000])
        to = rng.choice([300, 700])
        a = ["-max_retries=%d" % n, "-sleep_millis=%d" % sl, "-abort_check_interval_millis=%d" % ab, "-connect_timeout_millis=%d" % to,
             "-read_timeout_millis=%d" % to, "-write_timeout_millis=%d" % to, "-max_transfer_retries=%d" % rng.choice([0, 1, 2])]
        if kind == "full":
            a[0] = "-max_retries=%d" % min(n, 4)
            n = min(n, 4)
        url = "wdt://127.0.0.1?ports=%d&recpv=32&id=123" % port
        s = run([wdt, "-directory", root + "/src", "-connection_url", url] + a, timeout=40)
        ls.close()
        for x in held:
            x.close()
        if s.timed_out or s.rc == 0:
            V("wait-" + kind, "sender: rc %s after %.1f s" % (s.rc, s.wall), a)
        else:
            if kind == "dead":
                low, high = (n - 1) * sl / 1000., n * sl / 1000. + 8
            elif kind == "full":
                low, high = n * to / 1000. - .05, n * (to + sl) / 1000. + 8
            else:
                low, high = to / 1000. - .05, 30
            if not low <= s.wall <= high:
                V("wait-" + kind, "sender gave up after %.2f s, not %.2f to %.2f" % (s.wall, low, high), a)
        c.case((kind, seed), "%s %s: rc %s after %.2f s" % (kind, " ".join(a), s.rc, s.wall))
    c.add("timing_" + kind)
    shutil.rmtree(root, ignore_errors=True)


def body(c):
    tab = c.tmp + "/table"
    wdt = c.build("plain", "wdt", [], cli=True)
    # where standard output is no terminal
    r = run([wdt, "-print_options"], timeout=30)
    m = re.search(rb"progress_report_interval_millis (-?\d+)", r.out)
    rows = [list(t) for t in TABLE]
    for t in rows:
        if t[2] == "?":
            t[2] = m.group(1).decode() if m else "0"
    BYNAME["progress_report_interval_millis"][2] = m.group(1).decode() if m else "0"
    rows.append(["close_on_exec", "bool", "0", "-"])
    open(tab, "w").write("".join("\t".join(t) + "\n" for t in rows))
    lib = build_optio()
    unitb = c.build("asan", "opts_unit", ["opts_unit.cpp"])
    s = c.seed * 100000
    os.makedirs(c.tmp + "/iso", exist_ok=True)
    jobs = []
    for k in range(c.n(2, 8)):
        jobs.append(lambda k=k: unit(c, unitb, ["mode=flags", "seed=%d" % (s + k), "n=%d" % c.n(800, 8000), "table=" + tab], ctx="flags"))
        jobs.append(lambda k=k: unit(c, unitb, ["mode=modify", "seed=%d" % (s + k), "n=%d" % c.n(800, 8000), "table=" + tab], ctx="modify"))
    for k in range(c.n(3, 12)):
        d = c.tmp + "/iso/%d" % k
        os.makedirs(d)
        jobs.append(lambda k=k, d=d: unit(c, unitb, ["mode=iso", "seed=%d" % (s + k), "n=%d" % c.n(12, 60), "table=" + tab, "dir=" + d], ctx="iso"))
    for k in range(c.n(18, 90)):
        jobs.append(lambda k=k: timing(c, wdt, s + k))
    for k in range(c.n(110, 1200)):
        jobs.append(lambda k=k: traced(c, wdt, lib, s + k))
    for k in range(c.n(260, 3000)):
        jobs.append(lambda k=k: printed(c, wdt, s + k))
    c.pmap(lambda j: j(), jobs, 10)


if __name__ == "__main__":
    main(Check("C30", "exploration",
               "random sets of flags in every spelling through the tool's -print_options and through WdtFlags in process, random values and "
               "specified sets through modifyOptions, all against a table of documented defaults; transfers with random options whose "
               "system calls (ports, families, backlog, socket options and timeouts, preallocation, syncing, advice, direct reads, "
               "read sizes, blocks) must be those the options ask for; waiting options timed; two applications with options of their "
               "own in one process; distinct = flag sets, option sets and transfers",
               ["options without an effect that shows in a short transfer (limits, log intervals, report intervals) are judged by their value only",
                "waiting times carry seconds of slack upwards"]),
         body)
