"""Independent reader of the transfer log."""
HDR, CREATE, BLOCK, INVAL, RESIZE, DIRINV = range(6)


class Bad(Exception):
    pass


class Rd:
    def __init__(self, b):
        self.b, self.p = b, 0

    def u(self):
        v = 0
        for i in range(9):
            if self.p >= len(self.b):
                raise Bad("varint")
            c = self.b[self.p]
            self.p += 1
            if i == 8:
                return v | c << 56
            v |= (c & 127) << (7 * i)
            if not c & 128:
                return v

    def s(self):
        n = self.u()
        if n > len(self.b) - self.p:
            raise Bad("string")
        r = self.b[self.p:self.p + n]
        self.p += n
        return r


def entries(b):
    """[(end offset, type, fields)]; stops at a partial trailing entry."""
    out, p = [], 0
    while len(b) - p >= 2:
        n = int.from_bytes(b[p:p + 2], "little", signed=True)
        if n <= 0:
            raise Bad("length")
        if len(b) - p - 2 < n:
            break
        r = Rd(b[p + 2:p + 2 + n])
        t = r.b[0]
        r.p = 1
        r.u()
        if t == HDR:
            f = (r.u(), r.s(), r.s(), r.u())
        elif t == CREATE:
            f = (r.s(), r.u(), r.u())
        elif t == BLOCK:
            f = (r.u(), r.u(), r.u())
        elif t == RESIZE:
            f = (r.u(), r.u())
        elif t == INVAL:
            f = (r.u(),)
        elif t == DIRINV:
            f = ()
        else:
            raise Bad("type %d" % t)
        if r.p != len(r.b):
            raise Bad("trailing")
        p += 2 + n
        out.append((p, t, f))
    return out


def merged(iv):
    out = []
    for a, b in sorted(iv):
        if out and a <= out[-1][1]:
            out[-1] = (out[-1][0], max(out[-1][1], b))
        else:
            out.append((a, b))
    return out


def length(iv):
    return sum(b - a for a, b in iv)


def claims(b, recovery=None):
    """{name: (size, merged intervals)} of what the log says was received, in
    the session that its last header belongs to; None when it says nothing."""
    files, cur = {}, None
    for _, t, f in entries(b):
        if t == HDR:
            key = (f[1], f[3])
            if key != cur:
                files = {}
            cur = key
        elif t == DIRINV:
            files, cur = {}, None
        elif cur is None:
            continue
        elif t == CREATE:
            files[f[1]] = [f[0], f[2], []]
        elif t == BLOCK and f[0] in files:
            files[f[0]][2].append((f[1], f[1] + f[2]))
        elif t == RESIZE and f[0] in files:
            files[f[0]][1] = f[1]
        elif t == INVAL:
            files.pop(f[0], None)
    if cur is None or (recovery is not None and cur[0] != recovery.encode()):
        return {}
    import os
    return {os.fsdecode(n): (s, merged(iv)) for n, s, iv in files.values()}


def unsynced(trace, root, log, before=None):
    """Blocks that the log names before their bytes were written and synced, judged
    by the recorded order of the receiver's calls: [text].  (before: what was
    claimed already, a compacted log names it again)"""
    import os
    logp = root + "/.wdt.log"
    ents = entries(log)
    names, starts, last = {}, [], 0
    for end, t, f in ents:
        starts.append(last)
        last = end
        if t == CREATE:
            names[f[1]] = os.path.join(root, os.fsdecode(f[0]))
    dirty, wrote, bad, seen = {}, {}, [], 0
    done = 0
    for line in trace.decode("utf-8", "surrogateescape").split("\n"):
        p = line.split("\t")
        if len(p) < 6:
            continue
        op, path, a, b, r = p[0], p[1], int(p[2]), int(p[3]), int(p[4])
        if op == "truncate" and path == logp:
            continue
        if op in ("pwrite", "write") and path != logp and r > 0:
            dirty.setdefault(path, []).append((a, a + r))
            wrote.setdefault(path, []).append((a, a + r))
        elif op == "fsync" and r == 0:
            dirty.pop(path, None)
        elif op == "open" and a & os.O_TRUNC and r >= 0:
            wrote.pop(path, None)
            dirty.pop(path, None)
        elif op in ("pwrite", "write") and path == logp and r > 0:
            for (end, t, f), st in zip(ents, starts):
                if a < end <= a + r and t == BLOCK and f[2] > 0:
                    q = names.get(f[0])
                    seen += 1
                    if q is None:
                        bad.append("block of unknown file %d" % f[0])
                        continue
                    lo, hi = f[1], f[1] + f[2]
                    old = (before or {}).get(os.path.relpath(q, root))
                    if old and any(x <= lo and hi <= y for x, y in old[1]):
                        continue
                    if any(x < hi and lo < y for x, y in dirty.get(q, [])):
                        bad.append("%s [%d,%d) logged before it was synced" % (q[len(root):], lo, hi))
                    have = merged(wrote.get(q, []))
                    if not any(x <= lo and hi <= y for x, y in have):
                        bad.append("%s [%d,%d) logged but only %s written" % (q[len(root):], lo, hi, have[:4]))
    return bad, seen
