"""P14: every feature subset of the published feature list type-checks.

The compiler itself is the deciding analysis: the library is type-checked once per feature set (each feature alone,
each feature left out, none, default, all), so a use of a feature-gated item from ungated code cannot hide.
"""
import concurrent.futures as cf, json, os, re, shlex, shutil, subprocess, tempfile
import facts
from report import Check

NEEDS_FACTS = False


def features():
    meta = json.loads(subprocess.run(["cargo", "metadata", "--no-deps", "--offline", "--format-version", "1"], cwd=os.path.join(facts.BUILD, "ws"),
                                     env=facts.cargo_env(), capture_output=True, text=True).stdout)
    p = [p for p in meta["packages"] if p["name"] == "siderust"][0]
    return p["features"]


def closure(fs, tab):
    out = set(); st = list(fs)
    while st:
        f = st.pop()
        if f in out or f not in tab: continue
        out.add(f); st += [x for x in tab[f] if "/" not in x and not x.startswith("dep:")]
    return frozenset(out)


def subsets(tab):
    al = [f for f in tab if f != "default"]
    sets = {}
    def add(name, fs):
        sets.setdefault(closure(fs, tab) - {"default"}, name)
    add("no features", [])
    add("default features", ["default"])
    for f in al: add(f"only {f}", [f])
    for f in al: add(f"all but {f}", [g for g in al if f not in closure([g], tab)])
    add("all features", al)
    return sets


def cargo_check(ws, env, fs, *extra):
    return facts.sh(["cargo", "check", "--lib", "--no-default-features", "--features", ",".join(sorted(fs)), "--offline", "-p", "siderust", "--message-format", "short", *extra], cwd=ws, env=env)


def errors(out):
    return [l for l in out.splitlines() if re.search(r"(^|\s)error(\[E\d+\])?:", l)]


def judge(ck, name, fs, rc, out):
    ck.ob(); ck.count("feature sets")
    if rc != 0:
        errs = [l for l in errors(out) if "src/" in l]
        if not errs: raise SystemExit("feature build failed outside the crate: " + out[-2000:])
        ck.violation(f"features:{'+'.join(sorted(fs)) or 'none'}", f"with {name} ({', '.join(sorted(fs)) or 'none'}) the library does not type-check: " + " | ".join(errs[:3]))
    ck.sample(f"{name}: {'type-checks' if rc == 0 else 'fails'}")


def rustc_line(out):
    """argv and environment of the compiler call cargo made for the library"""
    for l in out.splitlines():
        m = re.match(r"\s*Running `(.*)`$", l)
        if m and "--crate-name siderust " in m.group(1):
            w = shlex.split(m.group(1)); env = {}
            while "=" in w[0] and not w[0].startswith(("/", "-")):
                k, v = w.pop(0).split("=", 1); env[k] = v
            return w, env
    return None, None


def run(db):
    ck = Check("P14", "type checking of the library by the compiler under every single-feature, all-but-one, default, empty and full feature set")
    with facts.Lock():
        ws = os.path.join(facts.BUILD, "ws"); facts.layout(ws)
        tab = features()
        target = os.path.join(facts.BUILD, "target-features")
        env = facts.cargo_env({"CARGO_TARGET_DIR": target, "RUSTFLAGS": "-Awarnings"})
        for sub in (".fingerprint", "build"):
            fp = os.path.join(target, "debug", sub)
            for d in os.listdir(fp) if os.path.isdir(fp) else ():
                if d == "siderust" or re.fullmatch(r"siderust-[0-9a-f]{16}", d): shutil.rmtree(os.path.join(fp, d))
        al = frozenset(f for f in tab if f != "default")
        full = closure(al, tab)
        r = cargo_check(ws, env, full, "-v")
        judge(ck, "all features", full, r.returncode, r.stdout)
        argv, renv = rustc_line(r.stdout)
        if argv is None: raise SystemExit("no compiler invocation for the library was found")
        # dependency sets as cargo resolves them for the small configurations
        done = {full}
        for name, fs in (("no features", frozenset()), ("default features", closure(["default"], tab) - {"default"})):
            q = cargo_check(ws, env, fs); judge(ck, name, fs, q.returncode, q.stdout); done.add(fs)
        jobs = []
        if r.returncode == 0:
            for fs, name in sorted(subsets(tab).items(), key=lambda x: -len(x[0])):
                if fs in done: continue
                jobs.append((name, fs, one_args(argv, tab, fs), {**env, **renv}, ws))
            with cf.ThreadPoolExecutor(8) as ex:
                for (name, fs, *_), (rc, out) in zip(jobs, ex.map(compile_one, jobs)):
                    judge(ck, name, fs, rc, out)
    ck.floor("feature sets", 12 if r.returncode == 0 else 1)
    return ck.finish("The library was type-checked under each listed feature set (the small sets with the dependency features cargo resolves for them, the others against the dependencies of the full set).")


def one_args(argv, tab, fs):
    """the compiler call for feature set fs: other feature cfgs and unselected optional dependencies dropped"""
    dep_on = {x[4:] for f in fs for x in tab[f] if x.startswith("dep:")}
    dep_all = {x[4:] for f in tab for x in tab[f] if x.startswith("dep:")}
    out = []; i = 0
    while i < len(argv):
        a = argv[i]; nx = argv[i + 1] if i + 1 < len(argv) else ""
        if a == "--cfg" and nx.startswith('feature="'):
            if nx[9:-1] in fs: out += [a, nx]
            i += 2; continue
        if a == "--extern":
            if nx.split("=")[0] in {d.replace("-", "_") for d in dep_all - dep_on}: i += 2; continue
        if a == "--out-dir":
            out += [a, "@OUT@"]; i += 2; continue
        if a.startswith("--json") or a.startswith("--error-format") or a.startswith("--diagnostic-width"): i += 1; continue
        out.append(a); i += 1
    return out + ["--error-format=short"]


def compile_one(job):
    name, fs, argv, env, ws = job
    with tempfile.TemporaryDirectory(dir=facts.BUILD) as d:
        r = subprocess.run([d if a == "@OUT@" else a for a in argv], cwd=os.path.realpath(ws), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return r.returncode, r.stdout
