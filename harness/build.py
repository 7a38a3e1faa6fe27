"""Assembles and builds the native harness: the canister's own source compiled for this machine, on top of a
recorded stand-in for the IC system API (mock/sys.rs).  Everything is offline and lives below BUILD/hx."""
import fcntl, glob, os, re, shutil, subprocess

H = os.path.dirname(os.path.abspath(__file__))
GIT = "ic-canisters-http-types"


def rd(p):
    with open(p, encoding="utf-8") as f:
        return f.read()


def wr(p, s):
    os.makedirs(os.path.dirname(p), exist_ok=True)
    if not os.path.isfile(p) or rd(p) != s:
        with open(p, "w", encoding="utf-8") as f:
            f.write(s)


def reg(name):
    home = os.environ.get("CARGO_HOME", "/root/.cargo")
    c = sorted(glob.glob(home + "/registry/src/*/" + name))
    if not c:
        raise SystemExit("crate source not found: " + name)
    return c[0]


def patched(ver, name, out, edits):
    src = reg("%s-%s" % (name, ver))
    for d, _, fs in os.walk(src):
        rel = os.path.relpath(d, src)
        if rel.split(os.sep)[0] in ("target", "tests", "benches", "examples"):
            continue
        for f in fs:
            if not f.endswith((".rs", ".toml", ".md", ".lds", ".in")) or f == "Cargo.toml.orig":
                continue
            p = os.path.normpath(os.path.join(rel, f))
            t = rd(os.path.join(d, f))
            for pat, fn in edits:
                if re.fullmatch(pat, p):
                    t = fn(t)
            if p == "Cargo.toml":
                t = re.sub(r"(?ms)^\[dev-dependencies[^\]]*\]\n.*?(?=^\[|\Z)", "", t)
                t = re.sub(r"(?ms)^\[\[(test|bench|example)\]\]\n.*?(?=^\[|\Z)", "", t)
            wr(os.path.join(out, p), t)


def lockver(repo, name):
    m = re.search(r'name = "%s"\nversion = "([^"]+)"' % re.escape(name), rd(repo + "/Cargo.lock"))
    return m.group(1)


def assemble(repo, hx, harness=H):
    unwind = lambda t: t.replace('extern "C" fn', 'extern "C-unwind" fn')
    patched(lockver(repo, "ic0"), "ic0", hx + "/p/ic0", [(r"src/sys\.rs", lambda t: rd(harness + "/mock/sys.rs")), (r"src/lib\.rs", lambda t: unwind(t).replace("mod sys;", "pub mod sys;").replace("pub pub", "pub"))])
    patched(lockver(repo, "ic-cdk"), "ic-cdk", hx + "/p/ic-cdk", [(r"src/call\.rs|src/api/call\.rs", unwind)])
    def ss(t):
        return re.sub(r'#\[cfg\(target_arch = "wasm32"\)\]\n', "", re.sub(r'#\[cfg\(not\(target_arch = "wasm32"\)\)\]\npub type DefaultMemoryImpl[^\n]*\n', "", t))
    patched(lockver(repo, "ic-stable-structures"), "ic-stable-structures", hx + "/p/ic-stable-structures",
            [(r"src/lib\.rs", ss), (r"src/ic0_memory\.rs", lambda t: re.sub(r"#\[link[^\]]*\]\n", "", t))])
    # a trap is a panic caught by the harness: no hook that panics again, no "task outlived its method" while unwinding
    def exe(t):
        a = t.index("fn setup_panic_hook() {")
        t = t[:a] + "fn setup_panic_hook() {}\npub fn forget_tasks() { TASKS.with(|t| std::mem::forget(t.take())); METHODS.with(|t| std::mem::forget(t.take())) }\n"
        return t.replace("    RECOVERING.get()\n", "    RECOVERING.get() || std::thread::panicking()\n")
    patched(lockver(repo, "ic-cdk-executor"), "ic-cdk-executor", hx + "/p/ic-cdk-executor", [(r"src/machinery\.rs", exe), (r"src/lib\.rs", lambda t: t.replace("MethodHandle, TaskHandle,", "MethodHandle, TaskHandle, forget_tasks,"))])
    ws = hx + "/ws"
    root = rd(repo + "/Cargo.toml")
    root = re.sub(r"(?ms)^members = \[.*?\]", 'members = ["cycles-ledger", "http", "engine", "world", "libck"]', root)
    root = re.sub(r"(?ms)^\[workspace.metadata.*?(?=^\[profile|\Z)", "", root)
    root = re.sub(r"(?ms)^\[profile.*\Z", "", root)
    root += '\n[patch.crates-io]\nic0 = { path = "../p/ic0" }\nic-cdk = { path = "../p/ic-cdk" }\nic-cdk-executor = { path = "../p/ic-cdk-executor" }\nic-stable-structures = { path = "../p/ic-stable-structures" }\n'
    # as in the released canister, arithmetic is not checked
    root += '\n[profile.dev]\nopt-level = 1\ndebug = 0\noverflow-checks = false\ndebug-assertions = false\nincremental = true\n'
    wr(ws + "/Cargo.toml", root)
    t = rd(repo + "/cycles-ledger/Cargo.toml")
    t = re.sub(r"(?ms)^\[dev-dependencies\]\n.*?(?=^\[|\Z)", "", t)
    t = re.sub(r"(?m)^%s\s*=.*\n" % GIT, "", t)
    t = re.sub(r"(?m)^\[package\]\n", "[package]\nautobins = false\nautotests = false\n", t)
    wr(ws + "/cycles-ledger/Cargo.toml", t)
    mirror(repo + "/cycles-ledger/src", ws + "/cycles-ledger/src")
    for f in glob.glob(repo + "/cycles-ledger/*.did"):
        wr(ws + "/cycles-ledger/" + os.path.basename(f), rd(f))
    for d in ("http", "engine"):
        wr(ws + "/" + d + "/Cargo.toml", rd(harness + "/" + d + "/Cargo.toml"))
        mirror(harness + "/" + d + "/src", ws + "/" + d + "/src")
    # the canister's own dependencies, for its main.rs
    deps = re.search(r"(?ms)^\[dependencies\]\n(.*?)(?=^\[|\Z)", t).group(1)
    feats = re.search(r"(?ms)^\[features\]\n.*?(?=^\[|\Z)", t)
    for d in ("world", "libck"):
        own = 'cycles-ledger = { path = "../cycles-ledger" }\nengine = { path = "../engine" }\n'
        wr(ws + "/" + d + "/Cargo.toml", '[package]\nname = "%s"\nversion = "0.0.0"\nedition = "2021"\n[features]\ntesting = []\n[dependencies]\n' % d + own +
           deps + (GIT + ' = { path = "../http" }\nic0 = "1"\n'))
        wr(ws + "/" + d + "/src/main.rs", rd(harness + "/bin/" + d + ".rs").replace("@MAIN@", ws + "/cycles-ledger/src/main.rs"))
    lock = rd(repo + "/Cargo.lock").split("\n\n")
    drop = (GIT, "cycles-ledger", "depositor", "fake-cmc")
    lock = [b for b in lock if not any('name = "%s"\n' % n in b for n in drop)]
    for n in ("ic0", "ic-cdk", "ic-cdk-executor", "ic-stable-structures"):
        lock = [re.sub(r'(?m)^(source|checksum) = .*\n', "", b + "\n").rstrip("\n") if 'name = "%s"\n' % n in b else b for b in lock]
    lk = "\n\n".join(lock) + "\n"
    if not os.path.isfile(hx + "/lock.in") or rd(hx + "/lock.in") != lk or not os.path.isfile(ws + "/Cargo.lock"):
        wr(ws + "/Cargo.lock", lk)
        wr(hx + "/lock.in", lk)
    return ws


def mirror(src, dst):
    """dst becomes a copy of src; files whose content is the same keep their time stamp, changed ones get a new one,
    so that cargo rebuilds exactly when the content differs, whatever the time stamps in src are"""
    if os.path.islink(dst):
        os.unlink(dst)
    seen = set()
    for d, _, fs in os.walk(src):
        out = os.path.normpath(os.path.join(dst, os.path.relpath(d, src)))
        os.makedirs(out, exist_ok=True)
        for f in fs:
            o = os.path.join(out, f)
            with open(os.path.join(d, f), "rb") as h:
                b = h.read()
            old = None
            if os.path.isfile(o):
                with open(o, "rb") as h:
                    old = h.read()
            if old != b:
                with open(o, "wb") as h:
                    h.write(b)
            seen.add(o)
    for d, _, fs in os.walk(dst):
        for f in fs:
            if os.path.join(d, f) not in seen:
                os.unlink(os.path.join(d, f))


def build(repo, hx, which=("world", "libck"), harness=H):
    """returns {bin: path or None}, log"""
    os.makedirs(hx, exist_ok=True)
    env = dict(os.environ, RUSTUP_TOOLCHAIN="1.91.1", CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=hx + "/target", RUSTC_WRAPPER="",
               CARGO_TERM_COLOR="never", RUSTFLAGS="-Awarnings")
    env["PATH"] = "/root/.cargo/bin:" + env.get("PATH", "")
    out, logs = {}, []
    with open(hx + "/.lock", "w") as l:
        fcntl.flock(l, fcntl.LOCK_EX)
        ws = assemble(repo, hx, harness)
        for w in which:
            r = subprocess.run(["cargo", "build", "--offline", "-p", w], cwd=ws, env=env, capture_output=True, text=True)
            if r.returncode:
                out[w] = None
                logs.append(r.stderr[-6000:])
            else:
                b = hx + "/bin-%s" % w
                try:
                    shutil.copy2(hx + "/target/debug/" + w, b + ".new")
                    os.replace(b + ".new", b)
                except OSError:
                    pass
                out[w] = b
    return out, "\n".join(logs)
