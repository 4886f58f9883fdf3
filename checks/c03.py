import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "tools"))
from vlib import *
import e2e

TO = [("b.read_timeout_millis", 1000), ("b.write_timeout_millis", 1000), ("r.max_accept_retries", 30)]
BAD = ["flip:1", "flip:128", "flip:255", "flip:4", "hole:50", "hole:1", "dup:50", "dup:1"]


def judge(x, d, gcm, left):
    cr = x.res.crash()
    if cr:
        return False, "!crash:" + cr, x.res.text[-1500:]
    if not x.d:
        return False, "no-result", "rc=%s timeout=%s" % (x.res.rc, x.res.timed_out)
    if d and x.ok("r") and x.ok("s") and gcm and left:
        return False, "!gcm-damaged-header-leftover", "%s %s" % (x.brief(), d[:4])
    if d and x.ok("r"):
        return False, "!receiver-ok-but:" + d[0].split()[0], "%s %s" % (x.brief(), d[:4])
    if d and x.ok("s") and gcm and x.err("r") == "FILE_WRITE_ERROR" and all(q.split()[0] in ("missing", "extra") for q in d):
        # a damaged name: the file was created under it, so the right name is not
        # created any more and the repair of the block fails at the receiver
        return False, "!gcm-damaged-header-leftover", "%s %s" % (x.brief(), d[:4])
    if d and x.ok("s"):
        # a port whose stream was damaged and which never got a sound connection again?
        dead = set()
        for p, n, s, r, f in x.d["conns"]:
            if n == 0 and f and ("flip" in f or "hole" in f or "dup" in f):
                if all(g or not (b or a) for q, m, b, a, g in x.d["conns"] if q == p and m > 0):
                    dead.add(p)
        if gcm and dead and not x.ok("r"):
            return False, "!sender-ok-gcm-final-tag-unrepaired", "%s %s" % (x.brief(), d[:4])
        return False, "!sender-ok-but:" + d[0].split()[0], "%s %s" % (x.brief(), d[:4])
    return True, "", x.brief()


def run_case(c, binary, files, root, args, rules, gcm, tag, must=None):
    fired = set()
    dst = root + "/dst"

    def once(i):
        e2e.fresh(dst)
        x = e2e.xfer(binary, args + [("dst", dst)] + [("f", r) for r in rules], timeout=150)
        dd = e2e.diff(files, dst) if x.d else []
        if x.d:
            fired.update((p, n, f) for p, n, s, r, f in x.d["conns"] if f)
            c.add("outcome_%s_%s" % (x.err("s"), x.err("r")))
            if "CHECKSUM_MISMATCH" in x.res.text or "hecksum mismatch" in x.res.text:
                c.add("checksum_mismatches_seen")
            if "ncryption error" in x.res.text or "tag" in x.res.text.lower():
                c.add("tag_errors_seen")
        g = judge(x, dd, gcm, bool(dd) and e2e.only_leftovers(files, dst))
        if g[0] and must and x.d and fired and not x.both:
            g = (False, must + ":%s/%s" % (x.err("s"), x.err("r")), "%s %s" % (x.brief(), dd[:3]))
        return g + ({"args": args, "rules": rules},)
    e2e.settled(c, 4, once, tag)
    if fired:
        c.case((tag, tuple(rules)), sample="%s %s -> fired %s" % (tag, rules, sorted(fired)[:4]))
    else:
        c.add("not_fired")


def gcm_case(c, binary, seed):
    rng = random.Random("c03g-%d" % seed)
    root = "%s/g%d" % (c.tmp, seed)
    e2e.fresh(root)
    files = e2e.gen_tree(rng, root + "/src", maxtotal=600000)
    o = [a for a in e2e.rand_opts(rng) if a[0] not in ("b.encryption_type", "s.encryption_tag_interval_bytes")]
    o += [("b.encryption_type", "aes128gcm"), ("s.encryption_tag_interval_bytes", rng.choice([0, 300, 4096, 65536, 4194304]))]
    np = e2e.odict(o)["b.num_ports"]
    args = [("src", root + "/src")] + o + TO
    x = e2e.xfer(binary, args + [("dst", root + "/d0"), ("proxy", 1)])
    if not x.both:
        c.inconcl("base run: " + x.brief())
        return
    conns = e2e.conn_bytes(x)
    used = sorted(k[0] for k, v in conns.items() if v[0] > 300) or [0]
    for rep in range(3):
        rules = []
        clean = np > 1 and rng.random() < .5
        for k in range(rng.choice([1, 1, 1, 2, 3])):
            port = rng.choice(used) if rng.random() < .8 else rng.randrange(np)
            if clean and port == 0:
                port = rng.randrange(1, np)
            d = rng.choice("sssr")
            tot = conns.get((port, 0), (300, 40))[0 if d == "s" else 1]
            q = rng.random()
            pos = max(0, tot - rng.randrange(1, 80)) if q < .3 else rng.randrange(min(tot, 400) or 1) if q < .5 else rng.randrange(tot or 1)
            rules.append("%d:%d:%s:%d:%s" % (port, rng.choice([0, 0, 0, 1]), d, pos, rng.choice(BAD)))
        run_case(c, binary, files, root, args, rules, True, "gcm%d" % seed)
    shutil.rmtree(root, ignore_errors=True)


def sum_case(c, binary, seed):
    """Checksums only: damage to the data or the footer of a single large block."""
    rng = random.Random("c03s-%d" % seed)
    root = "%s/s%d" % (c.tmp, seed)
    e2e.fresh(root)
    np = rng.choice([1, 1, 2])
    n = rng.choice([3000, 60000, 300000]) + rng.randrange(2000)
    files = {"f%d" % i: rng.randbytes(n) for i in range(np)}
    e2e.write_tree(root + "/src", files)
    o = [("b.num_ports", np), ("s.block_size_mbytes", rng.choice([-1, 16])), ("s.enable_checksum", "true"),
         ("b.encryption_type", rng.choice(["none", "aes128ctr"])),
         ("s.buffer_size", rng.choice([8192, 65536, 262144])), ("r.buffer_size", rng.choice([8192, 65536, 262144]))]
    if rng.random() < .3:
        o.append(("r.enable_download_resumption", "true"))
    if rng.random() < .3:
        o.append(("chunk", rng.choice([300, 5000])))
    args = [("src", root + "/src")] + o + TO
    enc = 23 if o[3][1] != "none" else 0
    for rep in range(3):
        rules = []
        for k in range(rng.choice([1, 1, 2])):
            port = rng.randrange(np)
            # settings < 100, header < 100, then n bytes of data
            pos = rng.randrange(600, n - 300)
            a = rng.choice(BAD[:5] + ["hole:50", "dup:50"])
            rules.append("%d:%d:s:%d:%s" % (port, rng.choice([0, 0, 1]) if k else 0, pos, a))
        run_case(c, binary, files, root, args, rules, False, "sum%d" % seed,
                 must="checksum-damage-not-repaired" if np == 1 and len(rules) == 1 and "flip" in rules[0] else None)
    shutil.rmtree(root, ignore_errors=True)


def locate(c, binary):
    """Damage at every position of the block data and footer of a small plain
    transfer, positions taken from the captured stream."""
    rng = random.Random("c03l-%d" % c.seed)
    root = c.tmp + "/loc"
    e2e.fresh(root)
    files = {"a": rng.randbytes(500), "b": rng.randbytes(300)}
    e2e.write_tree(root + "/src", files)
    # the same id and order of files every time: positions must not move, a header
    # damaged in clear cannot be noticed
    args = [("src", root + "/src"), ("b.num_ports", 1), ("b.encryption_type", "none"), ("s.enable_checksum", "true"),
            ("id", "c03locate"), ("s.two_phases", "true")] + TO
    cap = root + "/cap"
    os.makedirs(cap)
    x = e2e.xfer(binary, args + [("dst", root + "/d0"), ("proxy", 1), ("cap", cap)])
    stream = None
    for f in sorted(os.listdir(cap)):
        b = open(os.path.join(cap, f), "rb").read()
        if files["a"] in b:
            stream = b
    if not x.both or stream is None:
        c.inconcl("no capture: %s %s" % (x.brief(), os.listdir(cap)))
        return
    pos = []
    for v in files.values():
        i = stream.index(v)
        pos += list(range(i, i + len(v), c.n(9, 1)))
        f = i + len(v)
        e = f + 1
        while stream[e] & 0x80 and e < f + 10:
            e += 1
        pos += list(range(f, e + 1))        # footer command and the checksum
        c.add("footer_bytes", e + 1 - f)

    def one(p):
        r2 = root + "/p%d" % p
        e2e.fresh(r2)
        run_case(c, binary, files, r2, args, ["0:0:s:%d:flip:%d" % (p, 1 << (p % 8))], False, "loc%d" % p)
        shutil.rmtree(r2, ignore_errors=True)
    c.pmap(one, pos)
    shutil.rmtree(root, ignore_errors=True)


def gcm_sweep(c, binary):
    """One flipped byte at each position of a small authenticated transfer."""
    rng = random.Random("c03w-%d" % c.seed)
    root = c.tmp + "/gs"
    e2e.fresh(root)
    files = {"a": rng.randbytes(400), "d/b": rng.randbytes(200), "e": b""}
    e2e.write_tree(root + "/src", files)
    for name, tagi, ck, ports in (("t0", 0, "true", 1), ("t200", 200, "false", 2)):
        args = [("src", root + "/src"), ("b.num_ports", ports), ("b.encryption_type", "aes128gcm"),
                ("s.encryption_tag_interval_bytes", tagi), ("s.enable_checksum", ck)] + TO
        x = e2e.xfer(binary, args + [("dst", root + "/d0" + name), ("proxy", 1)])
        if not x.both:
            c.inconcl("gcm base " + x.brief())
            continue
        conns = e2e.conn_bytes(x)
        p = max((v[0], k[0]) for k, v in conns.items())[1]
        tot = conns[(p, 0)][0]

        def one(q):
            r2 = "%s/%s%d" % (root, name, q)
            e2e.fresh(r2)
            run_case(c, binary, files, r2, args, ["%d:0:s:%d:flip:%d" % (p, q, 1 << (q % 8))], True, "gs%s%d" % (name, q))
            shutil.rmtree(r2, ignore_errors=True)
        step = c.n(7, 1)
        c.pmap(one, range(c.seed % step, tot, step))
    shutil.rmtree(root, ignore_errors=True)


def known(c, binary):
    """The recorded weakness, made to happen every time: the tag that fails comes
    after every block was acknowledged, and the port stays unusable."""
    rng = random.Random("c03k")
    root = c.tmp + "/known"
    e2e.fresh(root)
    files = {"a": rng.randbytes(30000), "b": rng.randbytes(30000)}
    e2e.write_tree(root + "/src", files)
    args = [("src", root + "/src"), ("b.num_ports", 2), ("b.encryption_type", "aes128gcm"), ("s.block_size_mbytes", -1),
            ("s.encryption_tag_interval_bytes", 0), ("s.enable_checksum", "false"), ("s.max_retries", 2)] + TO
    rules = ["1:0:s:9000:flip:1"] + ["1:%d:s:0:refuse" % i for i in range(1, 30)]
    run_case(c, binary, files, root, args, rules, True, "known")
    shutil.rmtree(root, ignore_errors=True)


def known2(c, binary):
    """The other one: a damaged header creates the file too long, the block is
    repaired, the length is not."""
    root = c.tmp + "/known2"
    e2e.fresh(root)
    rng = random.Random("c03k2")
    files = {"a": rng.randbytes(400)}
    e2e.write_tree(root + "/src", files)
    args = [("src", root + "/src"), ("b.num_ports", 1), ("b.encryption_type", "aes128gcm"),
            ("s.encryption_tag_interval_bytes", 0), ("s.enable_checksum", "false")] + TO
    x = e2e.xfer(binary, args + [("dst", root + "/d0"), ("proxy", 1)])
    if x.both:
        def one(q):
            r2 = "%s/%d" % (root, q)
            e2e.fresh(r2)
            run_case(c, binary, files, r2, args, ["0:0:s:%d:flip:%d" % (q, f) for f in (16,)], True, "known2-%d" % q)
        tot = e2e.conn_bytes(x)[(0, 0)][0]
        c.pmap(one, range(23, tot - 400))
    shutil.rmtree(root, ignore_errors=True)


def body(c):
    asan = c.build("asan", "xfer", ["xfer.cpp"])
    base = c.seed * 1000003
    known(c, asan)
    known2(c, asan)
    c.pmap(lambda i: gcm_case(c, asan, base + i), range(c.n(70, 4000)), workers=16)
    c.pmap(lambda i: sum_case(c, asan, base + i), range(c.n(50, 3000)), workers=16)
    locate(c, asan)
    gcm_sweep(c, asan)


main(Check("C03", "exploration",
           "a relay flips bits, removes and repeats bytes in the stream between real sender and receiver: anywhere "
           "with authenticated encryption, in block data and footers with checksums only; positions learnt from "
           "fault-free runs or captures, sweeps over small transfers; any success report over a differing tree is "
           "flagged; distinct = damage schedules that really fired",
           ["without authenticated encryption damage outside block data and footers is not detectable by design"]),
     body)
