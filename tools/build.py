"""Builds everything a check needs from /repo's current working tree:
the engine, the LLVM IR of the harnesses linked with the real code, the
per-property IR modules, and the native replay binary."""
import fcntl, glob, hashlib, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
HS = VERIF + "/hs"
OUT = VERIF + "/build"
IRT = HS + "/target/ir"
NAT = HS + "/target/nat"
TRIPLE = "x86_64-unknown-linux-gnu"


class BuildError(Exception):
    pass


def env(**kw):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "RUSTC_WRAPPER"):
        e.pop(k, None)
    e["RUSTUP_TOOLCHAIN"] = "stable"
    e["CARGO_NET_OFFLINE"] = "true"
    e.update(kw)
    return e


def run(cmd, cwd=None, env_=None, what=""):
    p = subprocess.run(cmd, cwd=cwd, env=env_ or env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0:
        raise BuildError("%s failed: %s\n%s" % (what or cmd[0], " ".join(cmd), p.stdout.decode("utf-8", "replace")[-6000:]))
    return p.stdout.decode("utf-8", "replace")


class Lock:
    def __init__(self, name):
        os.makedirs(OUT, exist_ok=True)
        self.f = open(OUT + "/" + name, "w")

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def llvm_bin():
    r = run(["rustc", "--print", "sysroot"]).strip()
    return "%s/lib/rustlib/%s/bin" % (r, TRIPLE)


def write_if_changed(path, data):
    try:
        if open(path, "rb").read() == data:
            return
    except OSError:
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f:
        f.write(data)


def gen():
    """The command-line tool is a binary crate and the Python module has only private
    items: their sources are copied, with one line appended to the root that mounts
    the harness module as a child."""
    for kind, src, rootfile in (("cli", REPO + "/src", "cli.rs"), ("py", REPO + "/bindings/python/src", "lib.rs")):
        dst = "%s/gen/%s" % (HS, kind)
        os.makedirs(dst, exist_ok=True)
        seen = set()
        for root, _, files in os.walk(src):
            for f in files:
                if not f.endswith(".rs"):
                    continue
                p = os.path.join(root, f)
                rel = os.path.relpath(p, src)
                seen.add(rel)
                data = open(p, "rb").read()
                if rel == rootfile:
                    if kind == "cli":
                        data += b'\nextern crate symstd as std;'
                    data += b'\n#[path = "%s/%s/src/harness/mod.rs"]\npub mod harness;\n' % (HS.encode(), kind.encode())
                write_if_changed(os.path.join(dst, rel), data)
        for root, _, files in os.walk(dst):
            for f in files:
                if os.path.relpath(os.path.join(root, f), dst) not in seen:
                    os.unlink(os.path.join(root, f))


def engine():
    with Lock("engine.lock"):
        run(["cargo", "build", "--offline", "--release", "-q"], cwd=VERIF + "/engine", what="engine build")
    return VERIF + "/engine/target/release/symx"


def features(which, need=None):
    """Harness modules: all of them, or (when another module no longer compiles
    against the current tree) only those a check needs."""
    r = []
    for w in which:
        t = open("%s/%s/Cargo.toml" % (HS, w)).read()
        names = re.findall(r"^(\w+) = \[\]$", t, re.M)
        for n in names:
            if n != "default" and (need is None or (w, n) in need):
                r.append("h%s/%s" % (w, n))
    return ",".join(r)


def usable(which, need):
    """Of the modules a check needs, those that compile against the current tree."""
    ok = set()
    for m in sorted(need):
        try:
            archives1([m[0]], {m})
            ok.add(m)
        except BuildError as e:
            why = str(e)
    if not ok:
        raise BuildError(why)
    return ok


def archives(which, need=None):
    """which: list of 'lib'/'cli'/'py'. Returns {which: linked bitcode} and the
    harness modules left out because they no longer compile."""
    try:
        return archives1(which, None), set()
    except BuildError:
        if need is None:
            raise
    try:
        return archives1(which, need), set()
    except BuildError:
        ok = usable(which, need)
        return archives1(sorted({w for w, _ in ok}), ok), set(need) - ok


def archives1(which, need):
    with Lock("ir.lock"):
        gen()
        cmd = ["cargo", "build", "--offline", "-q", "-Zbuild-std=std,panic_abort", "--target", TRIPLE, "--target-dir", IRT]
        for w in which:
            cmd += ["-p", "h" + w]
        cmd += ["--features", features(which, need)]
        run(cmd, cwd=HS, env_=env(RUSTC_BOOTSTRAP="1", RUSTFLAGS="-Clinker-plugin-lto -Copt-level=0 -Cpanic=abort -Awarnings"), what="harness IR build")
        r = {}
        B = llvm_bin()
        for w in which:
            ar = "%s/%s/debug/libh%s.a" % (IRT, TRIPLE, w)
            st = os.stat(ar)
            key = "%d %d" % (st.st_mtime_ns, st.st_size)
            bc = "%s/%s.bc" % (OUT, w)
            kf = bc + ".key"
            if not (os.path.exists(bc) and os.path.exists(kf) and open(kf).read() == key):
                d = "%s/%s.objs" % (OUT, w)
                shutil.rmtree(d, ignore_errors=True)
                os.makedirs(d)
                run([B + "/llvm-ar", "x", ar], cwd=d)
                objs = []
                for o in sorted(glob.glob(d + "/*.o")):
                    with open(o, "rb") as f:
                        if f.read(4) == b"\x7fELF":
                            continue
                    objs.append(o)
                run([B + "/llvm-link"] + objs + ["-o", bc], what="llvm-link")
                shutil.rmtree(d, ignore_errors=True)
                with open(kf, "w") as f:
                    f.write(key)
            r[w] = bc
        return r


def native(need=None):
    try:
        return native1(["lib", "cli", "py"], None)
    except BuildError:
        if need is None:
            raise
        return native1(sorted({w for w, _ in need}), need)


def native1(which, need):
    with Lock("native.lock"):
        gen()
        run(["cargo", "build", "--offline", "-q", "--profile", "native", "-p", "hnative", "--features", ",".join(which) + "," + features(which, need), "--target-dir", NAT],
            cwd=HS, env_=env(RUSTFLAGS="--cfg sym_native -Awarnings"), what="native replay build")
    return NAT + "/native/hnative"


BODY = [
    (re.compile(r"^define .*core9panicking9panic_fmt\("), "  call void @sym_panic(ptr %2)\n  unreachable\n"),
    (re.compile(r"^define .*core9panicking18panic_nounwind_fmt\("), "  call void @sym_panic(ptr %3)\n  unreachable\n"),
]
# results of these functions go through sym_hash_fin
HASH = re.compile(r"^define [^@]*i64 @([^(]*(?:Hasher|hash)[^(]*6finish[^(]*|[^(]*13DefaultHasher[^(]*6finish[^(]*|[^(]*9FnvHasher[^(]*6finish[^(]*)\(")


def patch(src, dst):
    """Redirects the panic entry points to the engine and routes hash values
    through the engine (hash-constant mode)."""
    out = []
    skip = False
    tail = []
    n = {"panic": 0, "hash": 0}
    with open(src) as f:
        for l in f:
            if skip:
                if l.startswith("}"):
                    skip = False
                    out.append(l)
                continue
            if l.startswith("define"):
                for r, b in BODY:
                    if r.search(l):
                        out.append(l)
                        out.append("start:\n" + b)
                        skip = True
                        n["panic"] += 1
                        break
                if skip:
                    continue
                m = HASH.match(l)
                if m and "6finish" in m.group(1):
                    name = m.group(1)
                    new = name + ".orig"
                    sig = re.search(r"\((.*)\)", l[m.end() - 1:]).group(1)
                    params = re.findall(r"(?:^|, )\s*(ptr|i64)[^,]*?%(\w+)", sig)
                    if len(params) == 1 and params[0][0] == "ptr":
                        out.append(l.replace("@" + name + "(", "@" + new + "(", 1))
                        attr = l[l.rindex(")") + 1:]
                        tail.append("define internal i64 @%s(ptr %%p) {\n  %%r = call i64 @%s(ptr %%p)\n  %%s = call i64 @sym_hash_fin(i64 %%r)\n  ret i64 %%s\n}\n" % (name, new))
                        n["hash"] += 1
                        continue
            out.append(l)
    out += tail
    text = "".join(out)
    for d, decl in (("sym_panic", "declare void @sym_panic(ptr) noreturn\n"), ("sym_hash_fin", "declare i64 @sym_hash_fin(i64)\n")):
        if "declare void @%s(" % d not in text and "declare i64 @%s(" % d not in text:
            text += decl
    with open(dst, "w") as f:
        f.write(text)
    return n


def module(name, bc, entries):
    """One optimised IR module containing `entries` and what they reach."""
    B = llvm_bin()
    st = os.stat(bc)
    key = "%d %d %s %s" % (st.st_mtime_ns, st.st_size, ",".join(entries), hashlib.sha256(open(__file__, "rb").read()).hexdigest())
    ll = "%s/%s.ll" % (OUT, name)
    kf = ll + ".key"
    with Lock("mod-%s.lock" % name):
        if os.path.exists(ll) and os.path.exists(kf) and open(kf).read() == key:
            return ll
        d = "%s/%s.tmp" % (OUT, name)
        os.makedirs(d, exist_ok=True)
        api = "-internalize-public-api-list=" + ",".join(entries)
        run([B + "/opt", "-passes=internalize,globaldce", api, bc, "-o", d + "/dce.bc"], what="opt dce")
        run([B + "/llvm-dis", d + "/dce.bc", "-o", d + "/dce.ll"], what="llvm-dis")
        patch(d + "/dce.ll", d + "/p.ll")
        run([B + "/opt", "-passes=internalize,globaldce,default<O2>,globaldce", api, "-vectorize-loops=false", "-vectorize-slp=false", "-S", d + "/p.ll", "-o", ll], what="opt O2")
        shutil.rmtree(d, ignore_errors=True)
        with open(kf, "w") as f:
            f.write(key)
    return ll


if __name__ == "__main__":
    t = time.time()
    engine()
    print("engine %.1fs" % (time.time() - t)); t = time.time()
    a, _ = archives(["lib", "cli", "py"])
    print("ir %.1fs" % (time.time() - t)); t = time.time()
    native()
    print("native %.1fs" % (time.time() - t)); t = time.time()
