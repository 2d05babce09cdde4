#!/usr/bin/env python3
"""Development aid: operator mutants of /repo/src, each run against the repository's tests and, if those pass, against the
properties in turn until one notices.   auto.py [--slots N] [--files a,b] [--n N] [--seed N] [--out FILE] [--skip K]"""
import os, queue, random, re, shutil, subprocess, sys, tempfile, threading, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import campaign

REPO = "/repo"
ORDER = "C29 C07 C06 C03 C02 C01 C05 C15 C11 C12 C16 C19 C08 C20 C22 C18 C17 C14 C13 C10 C24 C23 C09 C27 C28 C30 C26 C04".split()
GEN = "--gen" in sys.argv  # the generator and its template instead, against C21 and C31
FILES = ["codegen/mod.rs", "codegen/definitions.rs"] if GEN else ["src/codec/decode.rs", "src/codec/encode.rs", "src/codec/framing.rs", "src/codec/mod.rs", "src/errors.rs", "src/framing.rs", "src/io.rs",
         "src/message/body.rs", "src/message/inmessage.rs", "src/message/outmessage.rs", "src/protocol/mod.rs", "src/types/mod.rs",
         "src/types/symbol.rs", "src/types/variant.rs", "src/protocol/definitions.rs"]


def code_lines(path):
    """(number, text) of lines outside tests, comments and attributes"""
    out = []
    for i, l in enumerate(open(os.path.join(REPO, path)).read().split("\n")):
        if re.match(r"\s*#\[cfg\(test\)\]", l):
            break
        if re.match(r"\s*(//|#\[|#!\[|use |pub mod |mod |extern )", l) or not l.strip():
            continue
        out.append((i, l))
    return out


def sites():
    for f in FILES:
        if not os.path.exists(os.path.join(REPO, f)):
            continue
        for i, l in code_lines(f):
            s = re.sub(r'"[^"]*"', lambda m: "\0" * len(m.group(0)), l.split("//")[0])

            def rep(a, b, new):
                return (f, i, l[:a] + new + l[b:])
            for m in re.finditer(r"(?<![\w.])(0x[0-9a-fA-F_]+|\d[\d_]*)(?=(?:u8|u16|u32|u64|usize|i32|i64)?\b)", s):
                t = m.group(1).replace("_", "")
                v = int(t, 0)
                yield rep(m.start(1), m.end(1), str(v + 1))
                if v > 0:
                    yield rep(m.start(1), m.end(1), str(v - 1))
            for a, bs in (("<=", ["<"]), (">=", [">"]), (" < ", [" <= "]), (" > ", [" >= "]), ("==", ["!="]), ("!=", ["=="]), (" + ", [" - "]),
                          (" - ", [" + "]), ("&&", ["||"]), ("||", ["&&"]), (" * ", [" + "]), ("true", ["false"]), ("false", ["true"]),
                          (" += ", [" -= "]), (" -= ", [" += "]), ("<<", [">>"]), (" & ", [" | "]), (" | ", [" & "]),
                          ("u16", ["u8", "u32"]), ("u32", ["u16", "u64"]), ("u8", ["u16"]), ("u64", ["u32"]), (".is_some()", [".is_none()"]), (".is_empty()", [".len() == 1"]),
                          (" as u8", [" as u16 as u8 & 0x7f"]), ("_be(", ["_le("])):
                for m in re.finditer(re.escape(a), s):
                    for b in bs:
                        if a in ("<", ">") and re.search(r"[-=]$", s[:m.start()]):
                            continue
                        yield rep(m.start(), m.end(), b)
            if GEN and f.endswith("definitions.rs") and re.search(r"\S", s):
                yield (f, i, "")
            if re.match(r"\s+[^{}]*;\s*$", s) and not re.match(r"\s*(let|pub|type|const|return|static|self\s*$)", s):
                yield (f, i, re.match(r"\s*", l).group(0) + "();")
            m = re.match(r"(\s*)if (.*) \{\s*$", s)
            if m and " let " not in " " + s:
                yield (f, i, m.group(1) + "if false && (" + l[m.start(2):m.end(2)] + ") {")
                yield (f, i, m.group(1) + "if true || (" + l[m.start(2):m.end(2)] + ") {")
            m = re.match(r"(\s*)(.*) => (.*),\s*$", s)
            for m in re.finditer(r"\b(FORMATCODE_\w+|Some\((\w+)\)|Ordering::Less|\.min\(|\.max\(|saturating_sub|wrapping_add|checked_add)", s):
                t = m.group(1)
                if t.startswith("Some("):
                    yield rep(m.start(), m.end(), "None")
                elif t == ".min(":
                    yield rep(m.start(), m.end(), ".max(")
                elif t == ".max(":
                    yield rep(m.start(), m.end(), ".min(")


class Slot(campaign.Slot):
    def one(self, site, seed, nw):
        f, i, new = site
        subprocess.run(["git", "-C", self.repo, "checkout", "-q", "--", "."], check=True)
        p = os.path.join(self.repo, f)
        ls = open(p).read().split("\n")
        ls[i] = new
        open(p, "w").write("\n".join(ls))
        try:
            r = subprocess.run(["cargo", "test", "--offline", "-q"], cwd=self.repo, env=self.env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120)
        except subprocess.TimeoutExpired:
            return "TESTHANG"
        if r.returncode:
            return "COMPILE" if b"could not compile" in r.stdout else "TESTFAIL"
        ck = self.ck
        ck.TMP[:] = [tempfile.mkdtemp(prefix="mutrun-")]
        errs = []
        try:
            b = ck.build("debug")
            lst = ck.listing(b)
            if GEN:
                sys.path.insert(0, os.path.join(self.verif, "tools"))
                import regen
                for p in ("C21", "C31"):
                    o, ex = ck.Outcome(), {}
                    if p == "C21":
                        regen.run(ck, b, "quick", seed, o, ex)
                    else:
                        regen.run_extended(ck, "quick", seed, o, ex)
                    if o.violations:
                        v = min(o.violations, key=lambda v: len(v["msg"]))
                        return "HIT %s(%s) %s" % (p, v["stream"], v["msg"][:80].replace("\n", " "))
                    if o.errors:
                        errs.append("%s:%s" % (p, o.errors[0][:100]))
                return "SURVIVED " + " ".join(errs)
            for p in ORDER:
                o = ck.Outcome()
                ck.run_workers(b, p, "quick", seed, lst[p][1], o, mode="debug", nw=nw)
                if o.violations:
                    v = min(o.violations, key=lambda v: len(v["msg"]))
                    return "HIT %s(%s) %s" % (p, v["stream"], v["msg"][:80].replace("\n", " "))
                if o.errors:
                    errs.append("%s:%s" % (p, o.errors[0][:100]))
        except ck.NoVerdict as e:
            return "NOVERDICT " + str(e)[-300:].replace("\n", " ")
        finally:
            for d in ck.TMP:
                shutil.rmtree(d, ignore_errors=True)
        return "SURVIVED " + " ".join(errs)


def main():
    a = sys.argv[1:]
    opt = lambda k, d: a[a.index(k) + 1] if k in a else d
    slots, seed = int(opt("--slots", "4")), int(opt("--seed", "1"))
    ss = sorted(set(sites()))
    if "--files" in a:
        w = opt("--files", "").split(",")
        ss = [s for s in ss if any(x in s[0] for x in w)]
    random.Random(seed).shuffle(ss)
    print(len(ss), "sites", flush=True)
    ss = ss[int(opt("--skip", "0")):][:int(opt("--n", "100000"))]
    done = set()
    log = opt("--out", "/tmp/auto.log")
    if os.path.exists(log):
        done = {l.split("\t")[0] for l in open(log)}
    q = queue.Queue()
    for s in ss:
        q.put(s)
    lock = threading.Lock()

    def work(n):
        sl = Slot(n + 20)
        while True:
            try:
                s = q.get_nowait()
            except queue.Empty:
                break
            key = "%s:%d:%s" % (s[0], s[1] + 1, s[2].strip())
            if key in done:
                continue
            t = time.time()
            try:
                r = sl.one(s, 1, max(2, 8 // slots))
            except Exception as e:
                r = "EXC " + repr(e)
            with lock:
                open(log, "a").write("%s\t%.0f\t%s\n" % (key, time.time() - t, r))
        shutil.rmtree(sl.root, ignore_errors=True)
    os.makedirs("/tmp/mut", exist_ok=True)
    ts = [threading.Thread(target=work, args=(i,)) for i in range(slots)]
    [t.start() for t in ts]
    [t.join() for t in ts]


main()
