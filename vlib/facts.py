"""Builds the MIR fact base for /repo's current working tree.

Nothing of the crate is executed: the extractor driver is a rustc that type-checks the crate and
dumps MIR.  Facts are cached by a hash of every input that can influence them.
"""
import hashlib, json, os, re, shutil, subprocess, sys, time, fcntl

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VREPO", "/repo")
BUILD = os.environ.get("VBUILD", os.path.join(VERIF, ".build"))
OWN = {".git", "target", "Cargo.toml", "Cargo.lock", "siderust-ffi", ".datasets"}
DEPS = "affn,qtty,qtty_core,tempoch,tempoch_core,cheby"


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def cargo_env(extra=None):
    env = dict(os.environ)
    for k in list(env):
        if k.startswith("CARGO_") and k not in ("CARGO_HOME",) or k in ("RUSTFLAGS", "RUSTC_WRAPPER", "RUSTC"):
            env.pop(k)
    env.update(RUSTUP_TOOLCHAIN="nightly", CARGO_NET_OFFLINE="true", SIDERUST_JPL_STUB="all",
               CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0")
    env.update(extra or {})
    return env


def layout(ws):
    """A cargo workspace over /repo without the member siderust-ffi (its git dependency is absent)."""
    os.makedirs(ws, exist_ok=True)
    names = set(os.listdir(REPO)) - OWN
    for n in os.listdir(ws):
        p = os.path.join(ws, n)
        if os.path.islink(p) and (n not in names or os.readlink(p) != os.path.join(REPO, n)):
            os.unlink(p)
    for n in names:
        p = os.path.join(ws, n)
        if not os.path.islink(p):
            os.symlink(os.path.join(REPO, n), p)
    man = open(f"{REPO}/Cargo.toml").read()
    man = re.sub(r'(?m)^\s*"siderust-ffi",?[ \t]*\n', "", man, count=1)
    def put(path, text):
        try:
            if open(path).read() == text:
                return
        except FileNotFoundError:
            pass
        open(path, "w").write(text)
    put(f"{ws}/Cargo.toml", man)
    lock = open(f"{REPO}/Cargo.lock").read()
    stamp = hashlib.sha256((lock + "\0" + man).encode()).hexdigest()
    sf = f"{ws}/.source"
    if not os.path.exists(sf) or open(sf).read() != stamp or not os.path.exists(f"{ws}/Cargo.lock"):
        open(f"{ws}/Cargo.lock", "w").write(lock)
        open(sf, "w").write(stamp)


def tree_hash(paths):
    h = hashlib.sha256()
    for root in paths:
        if os.path.isfile(root):
            files = [root]
        else:
            files = []
            for d, ds, fs in os.walk(root):
                ds.sort()
                ds[:] = [x for x in ds if x not in ("target", ".git")]
                files += [os.path.join(d, f) for f in sorted(fs)]
        for f in files:
            h.update(f.encode() + b"\0")
            try:
                with open(f, "rb") as fh:
                    h.update(hashlib.sha256(fh.read()).digest())
            except OSError:
                pass
    return h.hexdigest()


def build_driver():
    src = os.path.join(VERIF, "driver", "main.rs")
    key = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    out = os.path.join(BUILD, f"vdriver-{key}")
    if not os.path.exists(out):
        os.makedirs(BUILD, exist_ok=True)
        tmp = out + f".{os.getpid()}.tmp"
        r = sh(["rustc", "+nightly", "--edition", "2021", "-Copt-level=1", "--crate-name", "vdriver", src, "-o", tmp], env=cargo_env())
        if r.returncode != 0:
            sys.stderr.write(r.stdout)
            raise SystemExit("driver build failed")
        os.rename(tmp, out)
    return out, key


def sysroot():
    return sh(["rustc", "+nightly", "--print", "sysroot"]).stdout.strip()


class Lock:
    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, "lock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)
    def __exit__(self, *a):
        self.f.close()


class BuildError(Exception):
    pass


def ensure(quiet=False):
    """Returns the path of the fact file for the current tree."""
    with Lock():
        drv, dkey = build_driver()
        src = tree_hash([f"{REPO}/src", f"{REPO}/Cargo.toml", f"{REPO}/Cargo.lock"] +
                        [p for p in (f"{REPO}/build.rs", f"{REPO}/scripts", f"{REPO}/build") if os.path.exists(p)])
        key = hashlib.sha256((dkey + src + DEPS).encode()).hexdigest()[:20]
        fdir = os.path.join(BUILD, "facts")
        os.makedirs(fdir, exist_ok=True)
        out = os.path.join(fdir, key + ".jsonl")
        if os.path.exists(out):
            return out
        for f in os.listdir(fdir):
            os.unlink(os.path.join(fdir, f))
        ws = os.path.join(BUILD, "ws")
        layout(ws)
        target = os.path.join(BUILD, "target")
        for sub in (".fingerprint", "build"):
            fp = os.path.join(target, "debug", sub)
            if os.path.isdir(fp):
                for d in os.listdir(fp):
                    if d == "siderust" or re.fullmatch(r"siderust-[0-9a-f]{16}", d):
                        shutil.rmtree(os.path.join(fp, d))
        env = cargo_env({
            "CARGO_TARGET_DIR": target,
            "RUSTC_WORKSPACE_WRAPPER": drv,
            "RUSTFLAGS": "-Zalways-encode-mir -Awarnings",
            "LD_LIBRARY_PATH": sysroot() + "/lib",
            "VFACTS_CRATE": "siderust", "VFACTS_OUT": out, "VFACTS_DEPS": DEPS,
        })
        t = time.time()
        r = sh(["cargo", "check", "--lib", "--all-features", "--offline", "-p", "siderust"], cwd=ws, env=env)
        if not quiet:
            sys.stderr.write(f"[facts] cargo check {time.time()-t:.1f}s\n")
        if r.returncode != 0 or not os.path.exists(out):
            sys.stderr.write(r.stdout[-6000:])
            raise BuildError(r.stdout[-3000:])
        return out


if __name__ == "__main__":
    print(ensure())
