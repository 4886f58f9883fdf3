#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the registry in seeds.py and confirms each:
the demonstration passes on the unchanged tree and fails with the change.
  mkseed.py [-n] ID...   (-n: do not run the demonstrations)
  mkseed.py -c ID...     also run the property's check against it"""
import json, os, shutil, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import seeds


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def make(i, run, check):
    s = seeds.S[i]
    d = "%s/seeded/%s" % (V, i)
    w = "/tmp/seedw-" + i
    sh(["git", "-C", "/repo", "worktree", "remove", "--force", w])
    shutil.rmtree(w, ignore_errors=True)
    sh(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", w, "HEAD"])
    try:
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        kit = s.get("kit")
        if kit:
            shutil.copytree(V + "/shim", d + "/shim")
            shutil.copy(V + "/tools/kit/kit.sh", d)
        if kit == "xfer":
            for f in ("xfer.cpp", "proxy.h", "hk.h"):
                shutil.copy(V + "/harness/" + f, d)
        for n, t in s.get("files", {}).items():
            open(d + "/" + n, "w").write(t)
        demo = s["demo"] if s["demo"].startswith("#!") else "#!/bin/bash\n" + ('. "$(dirname "$0")/kit.sh"\n' if kit else "") + s["demo"]
        open(d + "/demo.sh", "w").write(demo)
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                  open(d + "/meta.json", "w"), indent=1)
        for f, o, n in s["edits"]:
            t = open(w + "/" + f).read()
            assert t.count(o) == 1, (i, f, "found %d times" % t.count(o), o)
            open(w + "/" + f, "w").write(t.replace(o, n))
        p = sh(["git", "diff"], cwd=w).stdout
        assert p
        open(d + "/patch.diff", "w").write(p)
        res = ""
        if run:
            a = sh(["bash", d + "/demo.sh"], cwd="/repo", timeout=300)
            b = sh(["bash", d + "/demo.sh"], cwd=w, timeout=300)
            ok = a.returncode == 0 and b.returncode not in (0, 3)
            res = "demo clean %d patched %d %s" % (a.returncode, b.returncode, "ok" if ok else "BAD")
            if not ok:
                res += "\n--- clean\n" + a.stdout[-1500:] + "\n--- patched\n" + b.stdout[-1500:]
            else:
                res += " | " + b.stdout.strip()[-160:].replace("\n", " / ")
        if check:
            env = dict(os.environ, WDT_REPO=w, WDT_BUILD="/tmp/seedb-" + i)
            env.setdefault("VERIF_SEED", "1")
            env["VERIF_TIER"] = "quick"
            c = sh(["python3", V + "/checks/%s.py" % s["property"].lower()], env=env, cwd=V)
            res += "\n   check exit %d: %s" % (c.returncode, " ".join(
                l for l in c.stdout.splitlines() if l.startswith("VIOLATION") or "violation keys" in l)[-300:])
            shutil.rmtree("/tmp/seedb-" + i, ignore_errors=True)
            cf = V + "/doc/caught.json"
            got = json.load(open(cf)) if os.path.exists(cf) else {}
            got[i] = s["property"] if c.returncode == 1 and "VIOLATION" in c.stdout else "missed"
            json.dump(got, open(cf, "w"), indent=1, sort_keys=True)
        print(i, res, flush=True)
    finally:
        sh(["git", "-C", "/repo", "worktree", "remove", "--force", w])
        shutil.rmtree(w, ignore_errors=True)


a = sys.argv[1:]
run, check = "-n" not in a, "-c" in a
for i in [x for x in a if x[0] != "-"] or list(seeds.S):
    make(i, run, check)
