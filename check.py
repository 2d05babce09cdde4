#!/usr/bin/env python3
"""Driver: check.py <property> [--tier quick|thorough] [--seed N] [--replay FILE] | --setup

Builds the monitor crate (/verif/harness) against /repo's working tree, runs the property's workload in
worker processes, and turns what the monitors observed into a verdict:
  exit 0  held on everything explored (KNOWN-FINDING lines for listed findings)
  exit 1  VIOLATION property=<id> replay=<path>
  exit 2  no verdict (build failure, harness error, resources ran out)
"""
import fcntl, json, os, re, resource, shutil, signal, struct, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
HARNESS = os.path.join(VERIF, "harness")
NPROC = max(1, os.cpu_count() or 1)

sys.path.insert(0, os.path.join(VERIF, "tools"))


def log(*a):
    print(*a, flush=True)


class NoVerdict(Exception):
    pass


class Found(Exception):
    """a violation found outside the workers"""


# ----------------------------------------------------------------------------- builds

def run_build(cmd, env=None, cwd=HARNESS, timeout=600):
    e = dict(os.environ)
    e.pop("RUSTFLAGS", None)
    e["CARGO_NET_OFFLINE"] = "true"
    if env:
        e.update(env)
    try:
        r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise NoVerdict("build timed out: %s" % " ".join(cmd))
    return r.returncode, r.stdout.decode("utf-8", "replace")


def forget_subject(target):
    """make cargo rebuild the crate under test whatever its timestamps say"""
    for root, dirs, _ in os.walk(target):
        if os.path.basename(root) == ".fingerprint":
            for d in dirs:
                if d.startswith("amqp-codec-") or d.startswith("amqpmon-"):
                    shutil.rmtree(os.path.join(root, d), ignore_errors=True)
            dirs[:] = []


def build(mode):
    """mode: debug | release | asan -> path of the binary"""
    target = os.path.join(HARNESS, "target")
    os.makedirs(target, exist_ok=True)
    lock = open(os.path.join(target, ".lock-" + mode), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    sub = os.path.join(target, "asan") if mode == "asan" else target
    forget_subject(sub)
    env = {"CARGO_TARGET_DIR": sub}
    if mode == "asan":
        env["RUSTFLAGS"] = "-Zsanitizer=address"
        cmd = ["cargo", "+nightly", "build", "--offline", "--locked", "--target", "x86_64-unknown-linux-gnu"]
        out = os.path.join(sub, "x86_64-unknown-linux-gnu", "debug", "amqpmon")
    elif mode == "release":
        cmd = ["cargo", "build", "--offline", "--locked", "--release"]
        out = os.path.join(sub, "release", "amqpmon")
    else:
        cmd = ["cargo", "build", "--offline", "--locked"]
        out = os.path.join(sub, "debug", "amqpmon")
    rc, txt = run_build(cmd, env)
    if rc != 0:
        raise NoVerdict("building the monitor (%s) failed:\n%s" % (mode, txt[-6000:]))
    # run a private copy, so that a later build cannot replace it mid-run
    d = tempfile.mkdtemp(prefix="amqpmon-")
    TMP.append(d)
    dst = os.path.join(d, "amqpmon")
    shutil.copy2(out, dst)
    fcntl.flock(lock, fcntl.LOCK_UN)
    return dst


TMP = []


# ----------------------------------------------------------------------------- workers

class Worker:
    def __init__(self, binary, pid, tier, seed, w, nw, wall, env, tag, extra=()):
        self.dir = os.path.join(TMP[0], "run-%s-%d" % (tag, w))
        os.makedirs(self.dir, exist_ok=True)
        self.status = os.path.join(self.dir, "status")
        self.w, self.tag, self.binary = w, tag, binary
        self.args = [binary, "work", "--pid", pid, "--tier", tier, "--seed", str(seed), "--w", str(w), "--nw", str(nw),
                     "--wall", str(wall), "--out", self.dir, "--status", self.status] + list(extra)
        self.err = open(os.path.join(self.dir, "stderr"), "wb")
        self.p = subprocess.Popen(self.args, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                                  stderr=self.err, preexec_fn=limits)
        self.seq, self.cpu = None, 0.0
        self.killed = None

    def read_status(self):
        try:
            with open(self.status, "rb") as f:
                return struct.unpack("<4Q", f.read(32))
        except Exception:
            return (0, 0, 0, 0)

    def cpu_time(self):
        try:
            with open("/proc/%d/stat" % self.p.pid) as f:
                v = f.read().rsplit(")", 1)[1].split()
            return (int(v[11]) + int(v[12])) / os.sysconf("SC_CLK_TCK")
        except Exception:
            return 0.0

    def result(self):
        with open(os.path.join(self.dir, "w%d.json" % self.w)) as f:
            j = json.load(f)
        with open(os.path.join(self.dir, "w%d.hashes" % self.w), "rb") as f:
            b = f.read()
        return j, set(struct.unpack("<%dQ" % (len(b) // 8), b))


def limits():
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def case_env(env):
    e = dict(os.environ)
    e.update(env or {})
    e["RUST_BACKTRACE"] = "0"
    return e


def run_case(binary, pid, tier, seed, stream, idx, env, cpu=45):
    """one case alone: (verdict, text); verdict in held, violated, crashed, hung, harness"""
    d = tempfile.mkdtemp(prefix="case-", dir=TMP[0])
    args = [binary, "case", "--pid", pid, "--tier", tier, "--seed", str(seed), "--stream", stream, "--idx", str(idx),
            "--status", os.path.join(d, "status")]

    def pre():
        limits()
        resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
    try:
        r = subprocess.run(args, env=case_env(env), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, preexec_fn=pre, timeout=cpu * 4)
    except subprocess.TimeoutExpired:
        return "timeout", "no answer within %d s" % (cpu * 4)
    txt = r.stdout.decode("utf-8", "replace").strip()
    err = r.stderr.decode("utf-8", "replace")
    if r.returncode == 0:
        return "held", txt
    if r.returncode == 1 and txt.startswith("VIOLATED"):
        return "violated", txt[9:]
    if r.returncode == 3:
        return "harness", txt + err[-500:]
    if r.returncode in (-signal.SIGXCPU, -signal.SIGKILL) and resource_hit(r, cpu):
        return "hung", "used more than %d s of processor time" % cpu
    if r.returncode == -signal.SIGKILL:
        return "timeout", "killed from outside"
    return "crashed", describe_exit(r.returncode, err)


def resource_hit(r, cpu):
    return r.returncode == -signal.SIGXCPU or resource.getrusage(resource.RUSAGE_CHILDREN).ru_utime > cpu


def describe_exit(rc, err):
    if rc == 77:
        return "memory allocated exceeded the armed limit"
    m = re.search(r"(ERROR: AddressSanitizer[^\n]*|ERROR: LeakSanitizer[^\n]*|WARNING: ThreadSanitizer[^\n]*)", err)
    if m:
        return m.group(1)
    if "has overflowed its stack" in err:
        return "stack overflow"
    m = re.search(r"(memory allocation of \d+ bytes failed)", err)
    if m:
        return m.group(1)
    if rc < 0:
        try:
            return "killed by " + signal.Signals(-rc).name
        except ValueError:
            pass
    return "exit status %d: %s" % (rc, err[-400:].strip())


HANG_CPU = 45.0


class Outcome:
    def __init__(self):
        self.violations = []   # dicts
        self.errors = []
        self.evals = 0
        self.distinct = set()
        self.counters = {}
        self.cases = {}
        self.samples = {}
        self.truncated = False
        self.digests = {}

    def merge(self, j, hs):
        self.evals += j["evals"]
        self.distinct |= hs
        for k, v in j["counters"].items():
            if k.startswith("max_"):
                self.counters[k] = max(self.counters.get(k, 0), v)
            else:
                self.counters[k] = self.counters.get(k, 0) + v
        for k, v in j["cases"].items():
            self.cases[k] = self.cases.get(k, 0) + v
        for k, v in j["samples"].items():
            have = self.samples.setdefault(k, [])
            if len(have) < 2:
                have.extend(v[:2 - len(have)])
        self.truncated |= j["truncated"]

    def add(self, one):
        self.evals += one.evals
        self.distinct |= one.distinct
        for k, v in one.counters.items():
            self.counters[k] = max(self.counters.get(k, 0), v) if k.startswith("max_") else self.counters.get(k, 0) + v
        for k, v in one.cases.items():
            self.cases[k] = self.cases.get(k, 0) + v
        self.samples = one.samples
        self.truncated |= one.truncated
        self.violations.extend(one.violations)
        self.errors.extend(one.errors)


def run_workers(binary, pid, tier, seed, streams, out, env=None, mode="debug", nw=None, wall=None, extra=()):
    nw = nw or NPROC
    wall = wall or (200 if tier == "quick" else 3000)
    e = case_env(env)
    ws = [Worker(binary, pid, tier, seed, i, nw, wall, e, mode, extra) for i in range(nw)]
    hard = time.time() + wall * 1.5 + 120
    live = list(ws)
    while live:
        time.sleep(0.05)
        for w in list(live):
            rc = w.p.poll()
            if rc is not None:
                live.remove(w)
                w.rc = rc
                continue
            st = w.read_status()
            if st[0] != w.seq:
                w.seq, w.cpu = st[0], w.cpu_time()
            elif w.cpu_time() - w.cpu > HANG_CPU:
                w.killed = "hang"
                w.p.kill()
            if time.time() > hard and not w.killed:
                w.killed = "wall"
                w.p.kill()
    for w in ws:
        w.err.close()
        if w.rc == 0:
            j, hs = w.result()
            out.merge(j, hs)
            for v in j["violations"]:
                out.violations.append(dict(stream=v["stream"], idx=v["idx"], msg=v["msg"], mode=mode))
            out.errors.extend(j["harness"])
            continue
        if w.killed == "wall":
            out.errors.append("worker %d ran out of wall-clock time" % w.w)
            continue
        seq, si, idx, memw = w.read_status()
        err = open(os.path.join(w.dir, "stderr"), "rb").read().decode("utf-8", "replace")
        if w.rc == 3 or seq == 0:
            out.errors.append("worker %d: %s %s" % (w.w, describe_exit(w.rc, err), err[-500:]))
            continue
        stream = streams[si]
        verdict, txt = run_case(binary, pid, tier, seed, stream, idx, env)
        first = "did not finish" if w.killed == "hang" else describe_exit(w.rc, err)
        if verdict == "violated":
            out.violations.append(dict(stream=stream, idx=idx, msg=txt, mode=mode))
        elif verdict in ("crashed", "hung"):
            out.violations.append(dict(stream=stream, idx=idx, msg=txt, mode=mode))
        elif verdict == "held" and not (w.rc == -signal.SIGKILL):
            # only after the cases before it: run that worker again, alone
            w2 = Worker(binary, pid, tier, seed, w.w, nw, wall, e, mode + "-again", extra)
            try:
                w2.p.wait(wall * 2 + 60)
            except subprocess.TimeoutExpired:
                w2.p.kill()
                w2.p.wait()
            s2 = w2.read_status()
            if w2.p.returncode not in (0, 3, -signal.SIGKILL) and s2[1:3] == (si, idx):
                out.violations.append(dict(stream=stream, idx=idx, mode=mode, worker=[w.w, nw],
                                           msg="after the preceding cases of the worker: " + first))
            else:
                out.errors.append("worker %d: %s at %s[%d], not reproduced" % (w.w, first, stream, idx))
        else:
            out.errors.append("worker %d: %s at %s[%d]; alone: %s %s" % (w.w, first, stream, idx, verdict, txt))


# ----------------------------------------------------------------------------- known findings, evidence

def signature(v):
    """what fails, without the particulars of one random case"""
    s = re.sub(r"(?:0x)?[0-9a-f]{6,}", "#", v["msg"])
    return re.sub(r"\d+", "#", s)[:200]


def known(pid):
    out = []
    try:
        for line in open(os.path.join(VERIF, "KNOWN_FINDINGS.txt")):
            m = re.match(r"known: property=(\S+) case=(\S+?)\[(\d+)\] match=/(.*)/ (.*)", line.strip())
            if m and m.group(1) == pid:
                out.append(dict(stream=m.group(2), idx=int(m.group(3)), rx=m.group(4), text=m.group(5)))
    except FileNotFoundError:
        pass
    return out


def evidence(pid, tier, seed, out, rule, t0, extra=None, viol=0):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    samples = []
    for k in sorted(out.samples):
        for s in out.samples[k]:
            samples.append(dict(stream=k, case=s))
    cov = dict(evaluations=out.evals, distinct_nontrivial=len(out.distinct), rule=rule, samples=samples[:40],
               cases_per_stream=out.cases, observed=out.counters, truncated=out.truncated)
    if extra:
        cov.update(extra)
    j = dict(property=pid, tier=tier, seed=seed, level="exploration", coverage=cov, wall_s=round(time.time() - t0, 2),
             violations=viol,
             assumptions=["the reference encoder, decoder and models in /verif/harness/src are right",
                          "cases not generated are not covered"])
    path = os.path.join(VERIF, "evidence", pid + ".json")
    tmp = path + ".tmp%d" % os.getpid()
    with open(tmp, "w") as f:
        json.dump(j, f, indent=1)
    os.replace(tmp, path)


def save_replay(pid, tier, seed, v):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s-%s-%s.json" % (pid, v.get("mode", "debug"), v["stream"], v["idx"]))
    with open(path, "w") as f:
        json.dump(dict(property=pid, tier=tier, seed=seed, **v), f, indent=1)
    return path


# ----------------------------------------------------------------------------- per property

def listing(binary):
    e = dict(os.environ)
    e.update(ASAN_ENV)
    r = subprocess.run([binary, "list"], stdout=subprocess.PIPE, env=e)
    out = {}
    for line in r.stdout.decode().splitlines():
        p = line.split("\t")
        out[p[0]] = (p[1], p[2].split(","))
    return out


ASAN_ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=86:allocator_may_return_null=0:detect_stack_use_after_return=1",
    "AMQPMON_ASAN": "1",
    "AMQPMON_STACK_KB": "65536",
}


def plan(pid, tier):
    """build modes a property is run in"""
    if pid == "C25":
        return ["asan"]
    if pid in ("C08", "C24"):
        return ["debug", "release"]
    if tier == "thorough":
        return ["debug", "release"]
    return ["debug"]


def check(pid, tier, seed):
    t0 = time.time()
    d = tempfile.mkdtemp(prefix="amqpmon-run-")
    TMP.insert(0, d)
    out = Outcome()
    extra = {}
    rule = ""
    modes = plan(pid, tier)
    bins = {m: build(m) for m in modes}
    extra["build_s"] = round(time.time() - t0, 1)
    extra["builds"] = modes
    lst = listing(bins[modes[0]])
    if pid not in lst:
        raise NoVerdict("unknown property " + pid)
    rule, streams = lst[pid]
    if pid == "C21":
        import regen
        regen.run(sys.modules[__name__], bins["debug"], tier, seed, out, extra)
    elif pid == "C31":
        import regen
        regen.run_extended(sys.modules[__name__], tier, seed, out, extra)
    else:
        for m in modes:
            run_workers(bins[m], pid, tier, seed, streams, out, env=ASAN_ENV if m == "asan" else None, mode=m)
    # a violation must show again when its case is run alone (or with its worker)
    confirmed, quiet = [], []
    kf = known(pid)
    for v in out.violations:
        hit = [k for k in kf if k["stream"] == v["stream"] and k["idx"] == v["idx"] and re.search(k["rx"], v["msg"])]
        if hit:
            quiet.append(hit[0])
        else:
            confirmed.append(v)
    if out.evals == 0 and not confirmed:
        out.errors.append("nothing was observed")
    evidence(pid, tier, seed, out, rule, t0, extra, viol=len(confirmed))
    for k in quiet:
        log("KNOWN-FINDING: property=%s %s" % (pid, k["text"]))
    log("%s %s seed=%d: %d evaluations, %d distinct, %.1f s%s" % (
        pid, tier, seed, out.evals, len(out.distinct), time.time() - t0, " (truncated)" if out.truncated else ""))
    seen = set()
    confirmed.sort(key=lambda v: len(v["msg"]))
    for v in confirmed:
        s = signature(v)
        if s in seen:
            continue
        seen.add(s)
        if len(seen) > 8:
            break
        path = save_replay(pid, tier, seed, v)
        log("  %s[%s] (%s): %s" % (v["stream"], v["idx"], v.get("mode"), v["msg"][:1200]))
        log("VIOLATION property=%s replay=%s" % (pid, path))
    if confirmed:
        return 1
    if out.errors:
        for e in out.errors[:5]:
            log("ERROR:", e[:1500])
        return 2
    return 0


def replay(path):
    j = json.load(open(path))
    TMP.insert(0, tempfile.mkdtemp(prefix="amqpmon-run-"))
    pid, mode = j["property"], j.get("mode", "debug")
    if pid in ("C21", "C31"):
        return check(pid, j["tier"], j["seed"])
    b = build(mode)
    if j.get("worker"):
        w, nw = j["worker"]
        wk = Worker(b, pid, j["tier"], j["seed"], w, nw, 3000, case_env(ASAN_ENV if mode == "asan" else None), mode)
        wk.p.wait()
        log("worker ended with", wk.p.returncode, "at", wk.read_status())
        return 0 if wk.p.returncode == 0 else 1
    verdict, txt = run_case(b, pid, j["tier"], j["seed"], j["stream"], j["idx"], ASAN_ENV if mode == "asan" else None)
    log(verdict, txt)
    if verdict in ("violated", "crashed", "hung"):
        log("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    return 0 if verdict == "held" else 2


def main():
    a = sys.argv[1:]
    try:
        if "--setup" in a:
            for m in ("debug", "release", "asan"):
                build(m)
            log("setup done")
            return 0
        if "--replay" in a:
            return replay(a[a.index("--replay") + 1])
        tier = os.environ.get("VERIF_TIER", "quick")
        if "--tier" in a:
            tier = a[a.index("--tier") + 1]
        seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        if "--seed" in a:
            seed = int(a[a.index("--seed") + 1])
        return check(a[0], tier, seed)
    except NoVerdict as e:
        log("NO VERDICT:", e)
        return 2
    finally:
        for d in TMP:
            shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
