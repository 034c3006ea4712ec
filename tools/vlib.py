"""Builds everything a check needs from /repo's current working tree: the symbolic executor, the
LLVM IR of the program with the harnesses, and the native binaries a counterexample is replayed on."""
import fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
TARGET = "riscv64gc-unknown-linux-gnu"
NIGHTLY = "nightly"

def log(*a): print(*a, file=sys.stderr, flush=True)

def env(**kw):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTC_WRAPPER", "CARGO_ENCODED_RUSTFLAGS", "RUSTUP_TOOLCHAIN", "CARGO_BUILD_TARGET"): e.pop(k, None)
    e["CARGO_NET_OFFLINE"] = "true"
    e["PATH"] = os.path.expanduser("~/.cargo/bin") + ":" + e.get("PATH", "")
    e.update(kw)
    return e

def sh(cmd, what, cwd=None, e=None, timeout=1500):
    t = time.time()
    p = subprocess.run(cmd, cwd=cwd, env=e or env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    if p.returncode != 0:
        raise BuildError("%s failed (exit %d):\n%s" % (what, p.returncode, p.stdout.decode("utf8", "replace")[-6000:]))
    log("[build] %s: %.1fs" % (what, time.time() - t))
    return p.stdout.decode("utf8", "replace")

class BuildError(Exception): pass

class Lock:
    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, "lock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)
    def __exit__(self, *a): self.f.close()

def write_if_changed(path, data):
    if isinstance(data, str): data = data.encode()
    try:
        if open(path, "rb").read() == data: return False
    except OSError: pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f: f.write(data)
    return True

def tree_files(d):
    out = []
    for r, ds, fs in os.walk(d):
        ds.sort()
        for f in sorted(fs): out.append(os.path.join(r, f))
    return out

def digest(files, extra=""):
    h = hashlib.sha256(extra.encode())
    for f in files:
        h.update(f.encode() + b"\0")
        h.update(hashlib.sha256(open(f, "rb").read()).digest())
    return h.hexdigest()[:20]

# ---------------------------------------------------------------- engine
def engine():
    exe = os.path.join(BUILD, "engine", "release", "symex")
    src = tree_files(os.path.join(VERIF, "engine", "src")) + [os.path.join(VERIF, "engine", "Cargo.toml")]
    stamp, d = os.path.join(BUILD, "engine.stamp"), digest(src)
    if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == d: return exe
    sh(["cargo", "build", "--release", "--offline", "--manifest-path", os.path.join(VERIF, "engine", "Cargo.toml"), "--target-dir", os.path.join(BUILD, "engine")], "symbolic executor")
    open(stamp, "w").write(d)
    return exe

# ---------------------------------------------------------------- sources
def replace(path, pairs):
    s = open(path).read()
    for a, b, n in pairs:
        if s.count(a) != n: raise BuildError("%s: expected %d occurrences of %r, found %d" % (path, n, a, s.count(a)))
        s = s.replace(a, b)
    open(path, "w").write(s)

def std_source():
    """The standard library with (1) SipHash replaced by a value chosen by the harness, so that hash
    tables iterate in an order the harness controls, and (2) word-at-a-time scans disabled."""
    dst = os.path.join(BUILD, "rust-src")
    stamp = os.path.join(dst, "stamp")
    sysroot = subprocess.check_output(["rustc", "+" + NIGHTLY, "--print", "sysroot"], env=env()).decode().strip()
    want = sysroot + " v3"
    if os.path.exists(stamp) and open(stamp).read() == want: return dst
    shutil.rmtree(dst, ignore_errors=True)
    shutil.copytree(os.path.join(sysroot, "lib/rustlib/src/rust/library"), os.path.join(dst, "library"), symlinks=True)
    lib = os.path.join(dst, "library")
    replace(os.path.join(lib, "std/src/hash/random.rs"), [
        ("        self.0.write(msg)\n", "        let _ = msg;\n", 1),
        ("        self.0.write_str(s);\n", "        let _ = s;\n", 1),
        ("        self.0.finish()\n", "        unsafe extern \"C\" { fn verif_hash_value() -> u64; }\n        unsafe { verif_hash_value() }\n", 1)])
    replace(os.path.join(lib, "core/src/str/count.rs"), [('if cfg!(feature = "optimize_for_size") || s.len()', 'if true || s.len()', 1)])
    replace(os.path.join(lib, "core/src/str/validations.rs"), [("if align != usize::MAX && align.wrapping_sub", "if false && align.wrapping_sub", 1)])
    open(stamp, "w").write(want)
    return dst

def memchr_source():
    """The memchr crate with its own byte-by-byte loops used for every length."""
    lock = open(os.path.join(REPO, "Cargo.lock")).read()
    m = re.search(r'name = "memchr"\nversion = "([^"]+)"', lock)
    ver = m.group(1)
    dst = os.path.join(BUILD, "memchr-" + ver)
    if os.path.exists(os.path.join(dst, "stamp2")): return dst
    shutil.rmtree(dst, ignore_errors=True)
    src = glob.glob(os.path.expanduser("~/.cargo/registry/src/*/memchr-" + ver))[0]
    shutil.copytree(src, dst)
    replace(os.path.join(dst, "src/arch/all/memchr.rs"), [("if len < USIZE_BYTES {", "if true || len < USIZE_BYTES {", 6)])
    open(os.path.join(dst, "stamp2"), "w").write("")
    return dst

def harness_names():
    out = []
    for f in sorted(glob.glob(os.path.join(VERIF, "harness", "h_*.rs"))):
        mod = os.path.basename(f)[:-3]
        for m in re.finditer(r"^pub fn (h_[a-z0-9_]+)\(\)", open(f).read(), re.M): out.append((mod, m.group(1)))
    return out

def app_source():
    """A copy of /repo's crate with the harness modules added at the crate root."""
    dst = os.path.join(BUILD, "app")
    os.makedirs(dst, exist_ok=True)
    want = set()
    def put(rel, data):
        want.add(os.path.join(dst, rel))
        write_if_changed(os.path.join(dst, rel), data)
    toml = open(os.path.join(REPO, "Cargo.toml")).read()
    toml += "\n[workspace]\n\n[patch.crates-io]\nmemchr = { path = %s }\n\n[profile.sym]\ninherits = \"release\"\nopt-level = 2\noverflow-checks = true\npanic = \"abort\"\nlto = \"off\"\ncodegen-units = 1\ndebug = false\nstrip = false\nincremental = false\n\n[profile.sym.package.accountmerge]\ncodegen-units = 8\n" % json.dumps(memchr_source())
    put("Cargo.toml", toml)
    lock = open(os.path.join(REPO, "Cargo.lock")).read()
    lock = re.sub(r'(name = "memchr"\nversion = "[^"]+"\n)source = "[^"]*"\nchecksum = "[^"]*"\n', r"\1", lock)
    if not os.path.exists(os.path.join(dst, "Cargo.lock")) or open(os.path.join(BUILD, "lock.src"), "r").read() != lock:
        put("Cargo.lock", lock); write_if_changed(os.path.join(BUILD, "lock.src"), lock)
    for f in tree_files(os.path.join(REPO, "src")):
        rel = os.path.relpath(f, REPO)
        data = open(f, "rb").read()
        if rel == "src/main.rs": data += b"\n#[allow(warnings)]\nmod verif_harness;\n"
        put(rel, data)
    for f in glob.glob(os.path.join(VERIF, "harness", "*.rs")):
        put("src/verif_harness/" + os.path.basename(f), open(f, "rb").read())
    names = harness_names()
    mods = sorted({m for m, _ in names})
    s = "#![allow(warnings)]\npub mod vf;\npub mod util;\npub mod imports;\n" + "".join("pub mod %s;\n" % m for m in mods)
    s += "#[cfg(not(test))]\nmod entry {\n" + "".join("#[no_mangle] pub extern \"C\" fn %s() { super::%s::%s() }\n" % (n, m, n) for m, n in names) + "}\n"
    s += "pub mod harnesses {\n pub fn lookup(n: &str) -> fn() { match n {\n" + "".join("  \"%s\" => super::%s::%s,\n" % (n, m, n) for m, n in names) + "  _ => panic!(\"no harness {}\", n) } }\n}\n"
    put("src/verif_harness/mod.rs", s)
    for f in tree_files(os.path.join(dst, "src")):
        if f not in want: os.remove(f)
    if os.path.isdir(os.path.join(REPO, "testdata")):
        td = os.path.join(dst, "testdata")
        if not os.path.islink(td):
            shutil.rmtree(td, ignore_errors=True)
            os.symlink(os.path.join(REPO, "testdata"), td)
    return dst

def app_digest(app): return digest([f for f in tree_files(os.path.join(app, "src"))] + [os.path.join(app, "Cargo.toml"), os.path.join(BUILD, "lock.src")])

# ---------------------------------------------------------------- builds
def ir():
    """Directory of the program's LLVM IR modules."""
    with Lock():
        exe = engine()
        app = app_source()
        std = std_source()
        d = app_digest(app)
        tdir = os.path.join(BUILD, "ir")
        out = os.path.join(tdir, TARGET, "sym", "build")
        stamp = os.path.join(BUILD, "ir.stamp")
        if not (os.path.exists(stamp) and open(stamp).read() == d):
            if os.path.exists(stamp): os.remove(stamp)
            for f in glob.glob(os.path.join(out, "accountmerge", "*", "out", "*.ll")): os.remove(f)
            cmd = ["cargo", "+" + NIGHTLY, "build", "--offline", "-Zbuild-std=std,panic_abort", "--target", TARGET, "--profile", "sym", "--bin", "accountmerge"]
            sh(cmd, "LLVM IR of the program", cwd=app, e=env(CARGO_TARGET_DIR=tdir, __CARGO_TESTS_ONLY_SRC_ROOT=os.path.join(std, "library"), RUSTFLAGS="--emit=llvm-ir -C linker=/bin/true -C no-vectorize-loops -C no-vectorize-slp -A warnings --cap-lints allow"))
            if not glob.glob(os.path.join(out, "accountmerge", "*", "out", "*.ll")): raise BuildError("no IR was produced for the program")
            open(stamp, "w").write(d)
        return exe, out

def native():
    """(program, replay test binary) built natively from the same sources."""
    with Lock():
        app = app_source()
        d = app_digest(app)
        tdir = os.path.join(BUILD, "native")
        stamp = os.path.join(BUILD, "native.stamp")
        if os.path.exists(stamp):
            j = json.load(open(stamp))
            if j["digest"] == d: return j["exe"], j["test"], j["shim"]
        e = env(CARGO_TARGET_DIR=tdir, RUSTFLAGS="-A warnings --cap-lints allow")
        sh(["cargo", "build", "--offline", "--bin", "accountmerge"], "program (native)", cwd=app, e=e)
        o = sh(["cargo", "test", "--offline", "--no-run", "--bin", "accountmerge", "--message-format=json"], "replay driver (native)", cwd=app, e=e)
        test = None
        for l in o.splitlines():
            if l.startswith("{"):
                j = json.loads(l)
                if j.get("reason") == "compiler-artifact" and j.get("executable") and j.get("profile", {}).get("test"): test = j["executable"]
        if not test: raise BuildError("no replay driver")
        shim = os.path.join(BUILD, "faultshim.so")
        csrc = os.path.join(VERIF, "tools", "faultshim.c")
        if os.path.exists(csrc): sh(["gcc", "-O1", "-shared", "-fPIC", "-o", shim, csrc, "-ldl"], "fault shim")
        exe = os.path.join(tdir, "debug", "accountmerge")
        json.dump({"digest": d, "exe": exe, "test": test, "shim": shim}, open(stamp, "w"))
        return exe, test, shim
