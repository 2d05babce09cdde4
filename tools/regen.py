"""C21: run the crate's own generator in a scratch copy, build the monitor against the regenerated definitions and
compare what both builds do with the same cases."""
import hashlib, os, re, shutil, struct, subprocess, tempfile, time


def copy_subject(repo, dst):
    shutil.copytree(repo, dst, symlinks=True, ignore=lambda d, names: [n for n in names if n in (".git", "target")])


def defs_summary(path):
    txt = open(path, "rb").read()
    body = re.sub(rb"\s+", b"", txt)
    return dict(bytes=len(txt), items=len(re.findall(rb"\n(?:pub )?(?:struct|enum|impl)\b", txt)),
                sorted_text=hashlib.sha256(bytes(sorted(body))).hexdigest()[:16])


def build_one(ck, n, out, extra, prepare=None):
    """regenerate and build; the binary, or None with a violation recorded. prepare(subject) may change the
    specification and give the text of the monitor's extra.rs"""
    root = tempfile.mkdtemp(prefix="regen-", dir=ck.TMP[0])
    src = os.path.join(root, "subject")
    copy_subject(ck.REPO, src)
    defs = os.path.join(src, "src", "protocol", "definitions.rs")
    shipped = defs_summary(defs)
    rs = prepare(src) if prepare else None
    os.remove(defs)
    open(defs, "w").close()
    target = os.path.join(root, "target")
    rc, txt = ck.run_build(["cargo", "build", "--offline", "--features", "from-spec"], {"CARGO_TARGET_DIR": target}, cwd=src)

    def fail(what):
        out.violations.append(dict(stream="generate", idx=n, mode="regen", msg=what + "\n" + txt[-2500:]))

    if rc != 0:
        if re.search(r"failed to run custom build command for `amqp-codec", txt):
            fail("the generator fails")
        elif re.search(r"could not compile `amqp-codec`.*build script", txt):
            fail("the generator does not compile")
        elif re.search(r"could not compile `amqp-codec`", txt):
            fail("the regenerated definitions do not compile")
        else:
            raise ck.NoVerdict("building with from-spec failed:\n" + txt[-3000:])
        return None
    regen = defs_summary(defs)
    if regen["bytes"] == 0:
        fail("the generator leaves no definitions behind")
        return None
    extra.setdefault("definitions", []).append(dict(shipped=shipped, regenerated=regen))
    h = os.path.join(root, "harness")
    os.makedirs(h)
    shutil.copytree(os.path.join(ck.HARNESS, "src"), os.path.join(h, "src"))
    if rs is not None:
        open(os.path.join(h, "src", "extra.rs"), "w").write(rs)
    shutil.copy2(os.path.join(ck.HARNESS, "Cargo.lock"), h)
    man = open(os.path.join(ck.HARNESS, "Cargo.toml")).read()
    if '"%s"' % ck.REPO not in man:
        raise ck.NoVerdict("no path dependency to redirect")
    open(os.path.join(h, "Cargo.toml"), "w").write(man.replace('"%s"' % ck.REPO, '"%s"' % src))
    rc, txt = ck.run_build(["cargo", "build", "--offline", "--locked"], {"CARGO_TARGET_DIR": target}, cwd=h)
    if rc != 0:
        # the same sources compile against the shipped definitions
        fail("the regenerated definitions do not offer the interface of the shipped ones")
        return None
    binary = os.path.join(root, "amqpmon")
    shutil.copy2(os.path.join(target, "debug", "amqpmon"), binary)
    shutil.rmtree(target, ignore_errors=True)
    return binary


def digests(ck, tag):
    d = {}
    for w in range(ck.NPROC):
        p = os.path.join(ck.TMP[0], "run-%s-%d" % (tag, w), "w%d.digests" % w)
        try:
            b = open(p, "rb").read()
        except FileNotFoundError:
            continue
        for s, i, h in struct.iter_unpack("<3Q", b):
            d[(s, i)] = h
    return d


def run(ck, shipped_bin, tier, seed, out, extra):
    t0 = time.time()
    streams = ck.listing(shipped_bin)["C21"][1]
    rounds = 1 if tier == "quick" else 3
    first = ck.Outcome()
    ck.run_workers(shipped_bin, "C21", tier, seed, streams, first, mode="shipped")
    a = digests(ck, "shipped")
    compared = 0
    extra["regenerations"] = 0
    for n in range(rounds):
        binary = build_one(ck, n, out, extra)
        if binary is None:
            break
        extra["regenerations"] += 1
        tag = "regen%d" % n
        one = ck.Outcome()
        ck.run_workers(binary, "C21", tier, seed, streams, one, mode=tag)
        b = digests(ck, tag)
        for k in sorted(a):
            if k in b:
                compared += 1
                if a[k] != b[k]:
                    out.violations.append(dict(stream=streams[k[0]], idx=k[1], mode=tag,
                                               msg="the regenerated definitions behave differently: digest %016x, shipped %016x"
                                               % (b[k], a[k])))
        if not one.violations and not first.violations and set(a) != set(b):
            out.errors.append("%d cases digested in one build, %d in the other" % (len(a), len(b)))
        one.truncated |= first.truncated
        out.add(one)
        os.remove(binary)
    out.violations.extend(first.violations)
    out.errors.extend(first.errors)
    out.counters["digests_compared"] = compared
    extra["regen_s"] = round(time.time() - t0, 1)


def run_extended(ck, tier, seed, out, extra):
    """C31: the same with randomly extended specifications; the monitor watches the types they generate"""
    import json
    import specgen
    t0 = time.time()
    rounds = 1 if tier == "quick" else 5
    extra["specifications"] = []
    for n in range(rounds):
        def prepare(src):
            path = os.path.join(src, "codegen", "specification.json")
            types, rs, what = specgen.extend(json.load(open(path)), seed * 1000 + n)
            with open(path, "w") as f:
                json.dump(types, f, indent=1)
            extra["specifications"].append(what)
            return rs
        binary = build_one(ck, n, out, extra, prepare)
        if binary is None:
            break
        one = ck.Outcome()
        streams = ck.listing(binary)["C31"][1]
        ck.run_workers(binary, "C31", tier, seed, streams, one, mode="extended%d" % n, wall=None if tier == "quick" else 600)
        out.add(one)
        os.remove(binary)
    extra["regen_s"] = round(time.time() - t0, 1)
