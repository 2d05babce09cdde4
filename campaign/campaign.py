#!/usr/bin/env python3
"""Development aid, not a check: applies textual mutants to scratch copies of /repo and reports which properties' streams
notice them.   campaign.py [--slots N] [--only ID,ID] [--all] [--seed N]   (mutants in mutants*.py)
Without --all only the properties listed with the mutant are run."""
import importlib.util, json, os, re, shutil, subprocess, sys, tempfile, threading, time, queue, glob

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
ALL = ["C%02d" % i for i in range(1, 35) if i not in (21, 25, 31)]


def load():
    out = []
    for f in sorted(glob.glob(os.path.join(HERE, "mutants*.py"))):
        ns = {}
        exec(open(f).read(), ns)
        out += ns["M"]
    return out


def sub(root, file, old, new, n=1):
    p = os.path.join(root, file)
    s = open(p).read()
    if s.count(old) < n:
        raise SystemExit("no match in %s: %r" % (file, old))
    i = -1
    for _ in range(n):
        i = s.index(old, i + 1)
    open(p, "w").write(s[:i] + new + s[i + len(old):])


class Slot:
    def __init__(self, n):
        self.root = "/tmp/mut/%d" % n
        shutil.rmtree(self.root, ignore_errors=True)
        os.makedirs(self.root)
        self.repo = os.path.join(self.root, "repo")
        subprocess.run(["git", "clone", "-q", "/repo", self.repo], check=True)
        if os.path.exists("/repo/Cargo.lock"):
            shutil.copy("/repo/Cargo.lock", self.repo)
        self.verif = os.path.join(self.root, "verif")
        shutil.copytree(VERIF, self.verif, ignore=lambda d, n: [x for x in n if x in ("target", ".git", "seeded", "evidence", "replays")])
        self.h = os.path.join(self.verif, "harness")
        for f in ("harness/Cargo.toml", "check.py"):
            p = os.path.join(self.verif, f)
            s = open(p).read().replace('"/repo"', '"%s"' % self.repo)
            open(p, "w").write(s)
        spec = importlib.util.spec_from_file_location("check%d" % n, os.path.join(self.verif, "check.py"))
        self.ck = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(self.ck)
        self.env = dict(os.environ, CARGO_NET_OFFLINE="true")

    def run(self, m, seed, everything, nw):
        subprocess.run(["git", "-C", self.repo, "checkout", "-q", "--", "."], check=True)
        for e in m["edits"]:
            sub(self.repo, *e)
        r = subprocess.run(["cargo", "test", "--offline", "-q"], cwd=self.repo, env=self.env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode != 0:
            txt = r.stdout.decode()
            return "TESTFAIL " + ("compile: " + txt[-1500:] if "could not compile" in txt else " ".join(re.findall(r"^test (\S+) \.\.\. FAILED|^    (\S+)$", txt, re.M)[0:3].__repr__().split()))
        ck = self.ck
        ck.TMP[:] = [tempfile.mkdtemp(prefix="mutrun-")]
        res = []
        try:
            need_rel = any(p in ("C08", "C24") for p in m["props"])
            b = ck.build("debug")
            lst = ck.listing(b)
            for p in (ALL if everything else m["props"]):
                if p in ("C21", "C31"):
                    sys.path.insert(0, os.path.join(self.verif, "tools"))
                    import regen
                    o = ck.Outcome(); ex = {}
                    if p == "C21":
                        regen.run(ck, b, "quick", seed, o, ex)
                    else:
                        regen.run_extended(ck, "quick", seed, o, ex)
                elif p == "C25":
                    a = ck.build("asan")
                    o = ck.Outcome()
                    ck.run_workers(a, p, "quick", seed, lst[p][1], o, env=ck.ASAN_ENV, mode="asan", nw=nw)
                else:
                    o = ck.Outcome()
                    ck.run_workers(b, p, "quick", seed, lst[p][1], o, mode="debug", nw=nw)
                if o.violations:
                    v = min(o.violations, key=lambda v: len(v["msg"]))
                    res.append("%s:HIT(%s) %s" % (p, v["stream"], v["msg"][:160] if not everything else ""))
                elif o.errors:
                    res.append("%s:ERR %s" % (p, o.errors[0][:200]))
                elif not everything:
                    res.append("%s:miss" % p)
        except ck.NoVerdict as e:
            res.append("NOVERDICT " + str(e)[-600:])
        finally:
            for d in ck.TMP:
                shutil.rmtree(d, ignore_errors=True)
        return " | ".join(res) or "nothing hit"


def main():
    a = sys.argv[1:]
    def opt(k, d):
        return a[a.index(k) + 1] if k in a else d
    slots = int(opt("--slots", "4"))
    seed = int(opt("--seed", "1"))
    ms = load()
    if "--refactors" in a:
        ns = {}
        exec(open(os.path.join(HERE, "refactors.py")).read(), ns)
        ms = ns["M"]
    if "--plants" in a:
        ms = []
        for f in sorted(glob.glob(os.path.join(HERE, "plants*.py"))):
            ns = {}
            exec(open(f).read(), ns)
            ms += [dict(id=p["id"], props=[p["property"]], edits=p["edits"]) for p in ns["P"]]
    if "--only" in a:
        want = opt("--only", "").split(",")
        ms = [m for m in ms if any(m["id"].startswith(w) for w in want)]
    q = queue.Queue()
    for m in ms:
        q.put(m)
    os.makedirs("/tmp/mut", exist_ok=True)
    lock = threading.Lock()
    # module-level state is per slot (each loads its own check.py), so threads do
    def work(n):
        s = Slot(n)
        while True:
            try:
                m = q.get_nowait()
            except queue.Empty:
                break
            t = time.time()
            try:
                r = s.run(m, seed, "--all" in a, max(2, 8 // slots))
            except SystemExit as e:
                r = "BAD " + str(e)
            except Exception as e:
                r = "EXC " + repr(e)
            with lock:
                print("%-10s %5.1fs %s" % (m["id"], time.time() - t, r), flush=True)
        shutil.rmtree(s.root, ignore_errors=True)
    ts = [threading.Thread(target=work, args=(i,)) for i in range(min(slots, len(ms)))]
    [t.start() for t in ts]
    [t.join() for t in ts]


if __name__ == "__main__":
    main()
