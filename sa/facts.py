"""Obtain MIR facts for /repo's *current* working tree.

Builds the rustc driver (mirfacts) and runs `cargo check` with it as RUSTC_WORKSPACE_WRAPPER on the
nightly toolchain. Nothing of the program under analysis is executed (apart from Cargo's own build
scripts / proc macros, as in any compile). Facts are cached by a hash of every source file that
feeds the build, so repeated checks on the same tree reuse them; a changed tree always re-extracts.
"""
import fcntl, hashlib, json, os, shutil, subprocess, sys, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SA_REPO", "/repo")
CACHE = os.environ.get("SA_CACHE", os.path.join(ROOT, ".cache"))
DRIVER_SRC = os.path.join(ROOT, "mirfacts")
# crate facts every analysis expects (fail closed when one is missing)
EXPECT = ["ruby_fast_lsp.lib", "ruby_fast_lsp.bin", "ruby_analysis.lib", "rbs_parser.lib",
          "ruby_fast_lsp_extension_api.lib", "ruby_fast_lsp_extension_wasm_host.lib",
          "ruby_fast_lsp_jvm_metadata.lib"]
SKIP_DIRS = {"target", ".git", "node_modules", "docs", "editors"}


class Broken(Exception):
    """The analysis cannot decide (tool failure): reported as exit code 2, never as a pass."""


def tree_hash():
    h = hashlib.sha256()
    for base, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if not (base == REPO and d in SKIP_DIRS) and d not in ("target", ".git"))
        for f in sorted(files):
            if f.endswith((".rs", ".toml")) or f == "build.rs" or "/rbs_types" in base:
                p = os.path.join(base, f)
                h.update(os.path.relpath(p, REPO).encode() + b"\0")
                try:
                    with open(p, "rb") as fh:
                        h.update(hashlib.sha256(fh.read()).digest())
                except OSError:
                    pass
    for f in ("src/main.rs", "Cargo.toml"):
        with open(os.path.join(DRIVER_SRC, f), "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()[:24]


def env_base():
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_INCREMENTAL", "CARGO_ENCODED_RUSTFLAGS"):
        e.pop(k, None)
    e["RUSTUP_TOOLCHAIN"] = "nightly"
    e["CARGO_NET_OFFLINE"] = "true"
    return e


def run(cmd, cwd, env, what):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        sys.stderr.write(p.stdout[-6000:] + "\n")
        raise Broken(f"{what} failed with status {p.returncode}")
    return p.stdout


def build_driver():
    e = env_base()
    td = os.path.join(CACHE, "driver")
    e["CARGO_TARGET_DIR"] = td
    run(["cargo", "build", "--release", "--offline"], DRIVER_SRC, e, "building mirfacts")
    return os.path.join(td, "release", "mirfacts")


def sysroot():
    return subprocess.check_output(["rustc", "--print", "sysroot"], env=env_base(), text=True).strip()


def extract(key):
    """Run the driver over the workspace; returns the facts directory."""
    out = os.path.join(CACHE, "facts", key)
    stamp = os.path.join(out, "OK")
    if os.path.exists(stamp):
        return out
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(stamp):
            return out
        driver = build_driver()
        tmp = out + ".tmp"
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        td = os.path.join(CACHE, "check-target")
        e = env_base()
        e["CARGO_TARGET_DIR"] = td
        e["MIRFACTS_OUT"] = tmp
        e["RUSTC_WORKSPACE_WRAPPER"] = driver
        e["LD_LIBRARY_PATH"] = sysroot() + "/lib"
        e["CARGO_INCREMENTAL"] = "0"
        # Workspace members must be re-driven (cargo's freshness check knows nothing of our output).
        for fp in (os.path.join(td, "debug", "build"), os.path.join(td, "debug", ".fingerprint")):
            if os.path.isdir(fp):
                for d in os.listdir(fp):
                    if d.startswith(("ruby-", "rbs-")) and not d.startswith("ruby-prism"):
                        shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
        lock = os.path.join(REPO, "Cargo.lock")
        with open(lock, "rb") as fh:
            saved = fh.read()
        st = os.stat(lock)
        try:
            run(["cargo", "check", "--offline", "-p", "ruby-fast-lsp", "--lib", "--bin", "ruby-fast-lsp"],
                REPO, e, "cargo check of /repo under mirfacts")
        finally:
            with open(lock, "rb") as fh:
                now = fh.read()
            if now != saved:
                with open(lock, "wb") as fh:
                    fh.write(saved)
                os.utime(lock, ns=(st.st_atime_ns, st.st_mtime_ns))
        have = {f[:-5] for f in os.listdir(tmp)}
        missing = [x for x in EXPECT if x not in have]
        if missing:
            raise Broken(f"driver produced no facts for {missing}")
        if tree_hash() != key:
            raise Broken("the source tree changed while it was being analysed")
        open(os.path.join(tmp, "OK"), "w").write(str(time.time()))
        fd = os.path.join(CACHE, "facts")
        for d in os.listdir(fd):  # keep only the newest tree's facts
            if d != key and d != key + ".tmp":
                shutil.rmtree(os.path.join(fd, d), ignore_errors=True)
        os.rename(tmp, out)
    return out


def load():
    t = time.time()
    key = tree_hash()
    d = extract(key)
    crates = {}
    for f in sorted(os.listdir(d)):
        if f.endswith(".json"):
            with open(os.path.join(d, f)) as fh:
                crates[f[:-5]] = json.load(fh)
    return crates, key, time.time() - t
