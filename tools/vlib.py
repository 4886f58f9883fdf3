"""Common parts of all checks: case running, verdicts, evidence, findings."""
import concurrent.futures, hashlib, json, os, random, re, shutil, signal
import subprocess, sys, tempfile, threading, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "tools"))
import core

NCPU = os.cpu_count() or 8

SAN_ENV = {
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=99:detect_leaks=0:"
                    "allocator_may_return_null=0:max_allocation_size_mb=2000:"
                    "detect_stack_use_after_return=0:handle_abort=0",
    "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=99:halt_on_error=1",
    "TSAN_OPTIONS": "ignore_noninstrumented_modules=1:exitcode=98:halt_on_error=0:"
                    "second_deadlock_stack=1:history_size=4:detect_deadlocks=1",
    "GLOG_logtostderr": "1",
    "LC_ALL": "C",
    "TZ": "UTC",
}
SAN_RE = re.compile(
    r"ERROR: AddressSanitizer|runtime error:|WARNING: ThreadSanitizer|"
    r"ERROR: LeakSanitizer|AddressSanitizer:DEADLYSIGNAL|UndefinedBehaviorSanitizer")


class Res:
    """Outcome of one process."""
    def __init__(self, cmd, rc, out, err, timed_out, wall):
        self.cmd, self.rc, self.out, self.err = cmd, rc, out, err
        self.timed_out, self.wall = timed_out, wall

    @property
    def text(self):
        return self.err.decode("latin-1")

    @property
    def sanitizer(self):
        m = SAN_RE.search(self.text)
        return m is not None

    def crash(self):
        """None, or a short stable description of an abnormal end."""
        t = self.text
        m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", t)
        if m:
            return "asan:" + m.group(1) + ":" + frame(t)
        m = re.search(r"([\w./+-]+):\d+:\d+: runtime error: ([^\n]{0,60})", t)
        if m:
            return "ubsan:" + os.path.basename(m.group(1)) + ":" + re.sub(r"-?\d+", "N", m.group(2))
        m = re.search(r"WARNING: ThreadSanitizer: ([^\n(]+)", t)
        if m:
            return "tsan:" + m.group(1).strip() + ":" + frame(t)
        m = re.search(r"\nF\d{4}[^\]]*?([\w.]+):\d+\] ([^\n]{0,80})", "\n" + t)
        if m:
            return "fatal:" + m.group(1) + ":" + re.sub(r"-?\d+", "N", m.group(2))
        if not self.timed_out and self.rc is not None and self.rc < 0:
            return "signal:%d" % -self.rc
        if self.rc in (98, 99):
            return "sanitizer-exit"
        return None


def frame(t):
    for m in re.finditer(r"#\d+ (?:0x[0-9a-f]+ in )?(.+?) (/\S+?):\d+", t):
        if "/repo/" in m.group(2) or "wdt" in m.group(2):
            return re.sub(r"\(.*", "", m.group(1))[-60:]
    return "?"


def run(cmd, timeout=60, env=None, stdin=None, cwd=None, files=None):
    e = dict(os.environ)
    e.update(SAN_ENV)
    if env:
        e.update(env)
    t0 = time.time()
    p = subprocess.Popen(cmd, stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL,
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e,
                         cwd=cwd, start_new_session=True)
    to = False
    try:
        out, err = p.communicate(stdin, timeout=timeout)
    except subprocess.TimeoutExpired:
        to = True
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        try:
            out, err = p.communicate(timeout=10)
        except Exception:
            out, err = b"", b""
    return Res(cmd, p.returncode, out, err, to, time.time() - t0)


class Check:
    def __init__(self, pid, level, rule, assumptions=()):
        self.pid, self.level, self.rule = pid, level, rule
        self.assumptions = list(assumptions)
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if "--thorough" in sys.argv:
            self.tier = "thorough"
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.thorough = self.tier == "thorough"
        self.rng = random.Random("%s-%d" % (pid, self.seed))
        self.t0 = time.time()
        self.evals = 0
        self.distinct = set()
        self.samples = []
        self.extra = {}
        self.viol = {}
        self.known_hit = {}
        self.inconclusive = []
        self.lock = threading.Lock()
        self.tmp = tempfile.mkdtemp(prefix="wv-%s-" % pid.lower())
        self.replay_dir = os.path.join(VERIF, "build", "replay", pid)
        kf = os.path.join(VERIF, "known_findings.json")
        self.known = []
        if os.path.exists(kf):
            self.known = [k for k in json.load(open(kf))["findings"]
                          if k["property"] == pid and k["status"] == "known"]

    # ---- sizes
    def n(self, quick, thorough=None):
        if self.thorough:
            return thorough if thorough is not None else quick * 20
        return quick

    def build(self, *a, **k):
        t = time.time()
        r = core.build(*a, **k)
        self.add("build_s", round(time.time() - t, 1))
        return r

    # ---- counting
    def case(self, key=None, sample=None, n=1):
        with self.lock:
            self.evals += n
            if key is not None:
                self.distinct.add(key if isinstance(key, (str, int, tuple)) else json.dumps(key, sort_keys=True))
            if sample is not None and len(self.samples) < 6:
                self.samples.append(sample)

    def add(self, name, v=1):
        with self.lock:
            self.extra[name] = round(self.extra.get(name, 0) + v, 3)

    def inconcl(self, what):
        with self.lock:
            self.inconclusive.append(str(what)[:300])

    # ---- verdicts
    def violation(self, key, desc, replay=None):
        """key: stable identity of what fails."""
        for k in self.known:
            if re.fullmatch(k["match"], key):
                with self.lock:
                    self.known_hit.setdefault(k["id"], desc)
                return
        with self.lock:
            if key in self.viol:
                self.viol[key][2] += 1
                return
            if len(self.viol) > 40:
                return
            os.makedirs(self.replay_dir, exist_ok=True)
            path = os.path.join(self.replay_dir, "v%d.json" % len(self.viol))
            self.viol[key] = [desc, path, 1]
        with open(path, "w") as f:
            json.dump({"property": self.pid, "key": key, "what": desc, "seed": self.seed,
                       "tier": self.tier, "replay": replay}, f, indent=1, default=repr)
        print("VIOLATION property=%s replay=%s" % (self.pid, path))
        print("  " + key + ": " + str(desc)[:1500].replace("\n", "\n  "))
        sys.stdout.flush()

    def pmap(self, fn, items, workers=None):
        """Runs fn over items in threads; an exception there is a harness error."""
        def guarded(i):
            if self.enough():
                return None
            return fn(i)
        with concurrent.futures.ThreadPoolExecutor(workers or NCPU) as ex:
            return list(ex.map(guarded, items))

    def enough(self):
        """A quick run that has its verdict need not go on for long."""
        return not self.thorough and bool(self.viol) and time.time() - self.t0 > 150

    def watchdog(self, limit):
        def wait():
            time.sleep(limit)
            self.inconcl("stopped after %d s" % limit)
            rc = self.finish()
            sys.stdout.flush()
            os._exit(rc)
        threading.Thread(target=wait, daemon=True).start()

    def finish(self):
        for k in self.known:
            if k["id"] in self.known_hit:
                print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
        cov = {"evaluations": self.evals, "distinct_nontrivial": len(self.distinct),
               "rule": self.rule, "samples": self.samples or ["(none)"]}
        cov.update(self.extra)
        if self.inconclusive:
            cov["inconclusive"] = len(self.inconclusive)
            cov["inconclusive_samples"] = self.inconclusive[:5]
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.viol)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        shutil.rmtree(self.tmp, ignore_errors=True)
        if self.evals == 0 or not self.distinct:
            print("check %s observed nothing" % self.pid)
            return 1 if self.viol else 2
        print("%s: %d evaluations, %d distinct, %d violation keys, %d inconclusive, %.1fs" %
              (self.pid, self.evals, len(self.distinct), len(self.viol),
               len(self.inconclusive), time.time() - self.t0))
        return 1 if self.viol else 0


def main(check, body):
    """Runs body(check) and turns everything into an exit status."""
    rc = 2
    if not check.thorough:
        check.watchdog(860)
    try:
        body(check)
        rc = check.finish()
    except Exception:
        traceback.print_exc()
        if check.viol:
            rc = check.finish()
    finally:
        shutil.rmtree(check.tmp, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


def unit(check, binary, args, timeout=300, env=None, ctx="", crash_ok=None):
    """Runs a harness driver (hk.h protocol) and takes over its verdicts."""
    cmd = [binary] + [str(a) for a in args]
    if not check.thorough:
        timeout = min(timeout, 240)
    for attempt in (1, 2):
        r = run(cmd, timeout=timeout, env=env)
        if not r.timed_out or check.viol:
            break
    rep = {"cmd": cmd, "env": env, "stderr_tail": r.text[-3000:]}
    done = False
    for line in r.out.decode("latin-1").splitlines():
        if line.startswith("FAIL "):
            key, _, desc = line[5:].partition(" | ")
            check.violation(key.strip(), desc, dict(rep, line=line))
        elif line.startswith("SAMPLE "):
            check.case(n=0, sample=line[7:][:400])
        elif line.startswith("COUNT "):
            _, k, v = line.split()
            check.add(k, int(v))
        elif line.startswith("DONE "):
            done = True
            _, e, d = line.split()
            check.case(n=int(e))
            with check.lock:
                base = len(check.distinct)
                check.distinct.update((tuple(map(str, args)), i) for i in range(int(d)))
    if crash_ok and (r.timed_out or not done or r.rc != 0 or r.sanitizer):
        check.inconcl("ended early (another property): %s" % (r.crash() or ("timeout" if r.timed_out else r.rc)))
        return r
    if r.timed_out:
        m = re.search(r"CTX ([^\n]*)", r.text)
        check.violation("hang:" + os.path.basename(binary) + ":" + (ctx or str(args[0] if args else "")),
                        "did not finish in %ds, twice" % timeout, rep)
    elif not done or r.rc != 0 or r.sanitizer:
        c = r.crash()
        if c is None and done and r.rc == 0:
            return r
        m = re.search(r"CTX ([^\n]*)", r.text)
        check.violation("crash:" + (c or "exit%s" % r.rc),
                        (m.group(0) if m else "") + "\n" + r.text[-2500:], rep)
    return r
