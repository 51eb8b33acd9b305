"""Shared plumbing: builds from /repo's working tree, process limits, evidence, verdicts."""
import hashlib, json, os, resource, shutil, signal, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.path.join(VERIF, "build")
OUT = os.path.join(VERIF, "out")
STABLE = "1.68.0"
NIGHTLY = "nightly"
JOBS = max(2, min(8, os.cpu_count() or 4))

SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = "thorough" if "--thorough" in sys.argv else os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
THOROUGH = TIER == "thorough"


class Inconclusive(Exception):
    pass


def base_env(toolchain=STABLE, **extra):
    e = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO_", "RUST")) or k in ("CARGO_HOME", "RUSTUP_HOME")}
    e.update(RUSTUP_TOOLCHAIN=toolchain, CARGO_NET_OFFLINE="true",
             CARGO_REGISTRIES_CRATES_IO_PROTOCOL="sparse", CARGO_INCREMENTAL="0",
             CARGO_PROFILE_DEV_DEBUG="0", CARGO_TERM_COLOR="never")
    e.update(extra)
    return e


def limits(cpu=None, mem_gb=None):
    def f():
        if cpu:
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
        if mem_gb:
            resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return f


class Res:
    def __init__(self, rc, out, err, timed_out):
        self.rc, self.out, self.err, self.timed_out = rc, out, err, timed_out


def run(cmd, timeout=300, env=None, cwd=None, stdin=None, cpu=None, mem_gb=None, stdout_path=None):
    """Run, capture, never raise; kills the whole process group on timeout."""
    so = open(stdout_path, "wb") if stdout_path else subprocess.PIPE
    p = subprocess.Popen(cmd, env=env, cwd=cwd, stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL,
                         stdout=so, stderr=subprocess.PIPE, preexec_fn=limits(cpu, mem_gb), start_new_session=True)
    timed = False
    try:
        o, e = p.communicate(stdin, timeout=timeout)
    except subprocess.TimeoutExpired:
        timed = True
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        o, e = p.communicate()
    if stdout_path:
        so.close()
    return Res(p.returncode, (o or b"").decode("utf8", "replace"), (e or b"").decode("utf8", "replace"), timed)


def tree_hash(paths):
    h = hashlib.sha256()
    for root in paths:
        if os.path.isfile(root):
            files = [root]
        else:
            files = []
            for d, ds, fs in os.walk(root):
                ds[:] = sorted(x for x in ds if x not in ("target", ".git"))
                files += [os.path.join(d, f) for f in sorted(fs)]
        for f in files:
            h.update(f.encode())
            with open(f, "rb") as fh:
                h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:16]


def repo_hash(repo=REPO):
    return tree_hash([os.path.join(repo, x) for x in
                      ("Cargo.toml", "Cargo.lock", "src", "peg-macros", "peg-runtime") if os.path.exists(os.path.join(repo, x))])


class Peg:
    """A build of /repo's crate; `ext` are the rustc arguments to link against it."""
    def __init__(self, target, profile_dir, toolchain):
        d = os.path.join(target, profile_dir)
        self.dir, self.toolchain = d, toolchain
        self.rlib = os.path.join(d, "libpeg.rlib")
        self.bin = os.path.join(d, "rust-peg")
        # where cargo said it put the library and what it depends on
        self.where = os.path.join(target, "artifacts-" + os.path.basename(os.path.dirname(d)) + ".json")
        self.ext = []

    def load(self):
        w = json.load(open(self.where))
        self.rlib = w["rlib"]
        self.ext = [x for f in [self.rlib] + w["rmeta"] for x in ("--extern", "peg=" + f)] + [x for d in w["dirs"] for x in ("-L", "dependency=" + d)]
        # a standard library built with the same flags replaces the installed one
        self.std = ["--sysroot", w["sysroot"]] if w.get("sysroot") else []
        self.ext += self.std


def prune_builds(keep):
    """Old builds of other trees only cost disk."""
    try:
        ds = [os.path.join(BUILD, d) for d in os.listdir(BUILD) if d.startswith("peg-")]
    except FileNotFoundError:
        return
    ds = sorted((d for d in ds if d not in keep), key=lambda d: os.path.getmtime(d))
    for d in ds[:-8]:
        shutil.rmtree(d, ignore_errors=True)


def build_peg(features=(), default_features=True, toolchain=STABLE, rustflags="", target=None, repo=REPO,
              with_bin=False, tag="", zbuild=()):
    """Build peg (and the rust-peg binary) from the working tree."""
    key = "-".join([repo_hash(repo), toolchain, "+".join(features) or "none", "def" if default_features else "nodef",
                    hashlib.sha256((rustflags + tag + " ".join(zbuild) + repo).encode()).hexdigest()[:6]])
    tdir = os.path.join(BUILD, "peg-" + key)
    os.makedirs(BUILD, exist_ok=True)
    env = base_env(toolchain)
    if rustflags:
        env["RUSTFLAGS"] = rustflags
    prof = "debug" if not target else os.path.join(target, "debug")
    r = Peg(tdir, prof, toolchain)
    r.target = target
    common = ["--manifest-path", os.path.join(repo, "Cargo.toml"), "--locked", "--offline", "--target-dir", tdir]
    if target:
        common += ["--target", target]
    common += list(zbuild)
    fl = []
    if features:
        fl += ["--features", ",".join(features)]
    if not default_features:
        fl += ["--no-default-features"]
    if not os.path.exists(r.where):
        x = run(["cargo", "build", "--message-format=json-render-diagnostics"] + common + fl, timeout=600, env=env, cwd="/tmp")
        if x.rc != 0:
            raise Inconclusive("building /repo failed:\n" + x.err[-4000:])
        rlib, rmeta, dirs, std = None, [], [], []
        for l in x.out.splitlines():
            m = json.loads(l) if l.startswith("{") else {}
            if m.get("reason") == "compiler-artifact":
                for f in m["filenames"]:
                    if f.endswith((".rlib", ".so", ".rmeta")) and os.path.dirname(f) not in dirs:
                        dirs.append(os.path.dirname(f))
                        if os.path.isdir(os.path.join(os.path.dirname(f), "deps")):
                            dirs.append(os.path.join(os.path.dirname(f), "deps"))
                    if m["target"]["name"] == "peg" and f.endswith(".rlib"):
                        rlib = f
                    if zbuild and not m["manifest_path"].startswith(repo + "/") and f.endswith((".rlib", ".rmeta")):
                        std.append(f)
                    if m["target"]["name"] == "peg" and f.endswith(".rmeta"):
                        rmeta.append(f)
        if not rlib:
            raise Inconclusive("cargo names no library for peg:\n" + x.err[-2000:])
        sysroot = None
        if std:
            sysroot = os.path.join(tdir, "sysroot")
            lib = os.path.join(sysroot, "lib", "rustlib", target, "lib")
            os.makedirs(lib, exist_ok=True)
            for f in std:
                shutil.copy(f, lib)
            dirs = [d for d in dirs if d not in {os.path.dirname(f) for f in std}]
        with open(r.where + ".tmp", "w") as f:
            if any(os.path.dirname(rlib) != os.path.dirname(f) for f in rmeta):
                rmeta = []
            json.dump({"rlib": rlib, "rmeta": rmeta, "sysroot": sysroot, "dirs": sorted(set(dirs))}, f)
        os.rename(r.where + ".tmp", r.where)
    r.load()
    if with_bin and not os.path.exists(r.bin):
        x = run(["cargo", "build", "-p", "peg-macros"] + common + (["--features", "peg-macros/trace"] if "trace" in features else []), timeout=600, env=env, cwd="/tmp")
        if x.rc != 0 or not os.path.exists(r.bin):
            raise Inconclusive("building the rust-peg binary failed:\n" + x.err[-4000:])
    os.utime(tdir)
    prune_builds({tdir})
    return r


class Mon:
    """The pegmon library and generator, keyed by its own source."""
    def __init__(self, d):
        self.dir = d
        self.rlib = os.path.join(d, "libpegmon.rlib")
        self.gen = os.path.join(d, "pegmon-gen")
        self.ext = ["--extern", "pegmon=" + self.rlib]


def build_mon(toolchain=STABLE, flags=("-O",), target=None, tag=""):
    src = os.path.join(VERIF, "pegmon", "src")
    key = tree_hash([src]) + "-" + toolchain + "-" + hashlib.sha256((" ".join(flags) + str(target) + tag).encode()).hexdigest()[:6]
    d = os.path.join(BUILD, "mon-" + key)
    m = Mon(d)
    if os.path.exists(m.rlib) and os.path.exists(m.gen):
        return m
    tmp = d + ".tmp%d" % os.getpid()
    os.makedirs(tmp, exist_ok=True)
    env = base_env(toolchain)
    fl = list(flags) + (["--target", target] if target else [])
    c = ["rustc", "--edition", "2021", "--cap-lints", "allow"]
    x = run(c + ["--crate-type", "rlib", "--crate-name", "pegmon", os.path.join(src, "lib.rs"), "--out-dir", tmp] + fl, env=env)
    if x.rc == 0:
        x = run(c + ["--crate-name", "pegmon_gen", os.path.join(src, "main.rs"), "--extern",
                     "pegmon=" + os.path.join(tmp, "libpegmon.rlib"), "-o", os.path.join(tmp, "pegmon-gen")] + fl, env=env)
    if x.rc != 0:
        raise Inconclusive("building pegmon failed:\n" + x.err[-4000:])
    if os.path.exists(d):
        shutil.rmtree(d, ignore_errors=True)
    try:
        os.rename(tmp, d)
    except OSError:
        pass
    return m


def rustc(src, out, ext, toolchain=STABLE, flags=(), timeout=300, json_errors=False, crate_name="p", edition="2021"):
    env = base_env(toolchain)
    cmd = ["rustc", "--edition", edition, "--crate-name", crate_name, src, "-o", out, "-C", "debuginfo=0",
           "-C", "opt-level=0", "-C", "overflow-checks=on", "-C", "debug-assertions=on"] + list(ext) + list(flags)
    if json_errors:
        cmd += ["--error-format=json"]
    return run(cmd, timeout=timeout, env=env, mem_gb=12)


def pmap(f, xs, jobs=JOBS):
    with ThreadPoolExecutor(jobs) as ex:
        return list(ex.map(f, xs))


class Check:
    """Collects what a check saw and turns it into a verdict."""
    def __init__(self, prop, level="exploration"):
        self.prop, self.level = prop, level
        self.t0 = time.time()
        self.violations = []
        self.findings = []
        self.n = {}
        self.cov = {}
        self.samples = []
        self.notes = []
        self.dir = os.path.join(OUT, prop)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir, exist_ok=True)

    def add(self, k, v=1):
        self.n[k] = self.n.get(k, 0) + v

    def merge(self, d):
        for k, v in d.items():
            self.n[k] = max(self.n.get(k, 0), v) if k.startswith("max_") else self.n.get(k, 0) + v

    def violation(self, what, replay_files):
        """replay_files: name -> text; written to a directory whose path is printed."""
        i = len(self.violations)
        d = os.path.join(self.dir, "replay-%d" % i)
        if i < 25:
            os.makedirs(d, exist_ok=True)
            for name, text in replay_files.items():
                with open(os.path.join(d, name), "w") as f:
                    f.write(text)
            with open(os.path.join(d, "WHAT.txt"), "w") as f:
                f.write(what + "\n")
        self.violations.append((what, d))

    def finding(self, key, what):
        if (key, what) not in self.findings:
            self.findings.append((key, what))

    def elapsed(self):
        return time.time() - self.t0

    def finish(self, rule, evaluations, distinct, assumptions=()):
        known = known_findings()
        said = set()
        for key, what in self.findings:
            k = [f for f in known if f["property"] == self.prop and f["key"] == key]
            if k and key in said:
                continue
            said.add(key)
            if k:
                print("KNOWN-FINDING: property=%s %s" % (self.prop, k[0]["what"]))
            else:
                self.violation("finding %s is not in known-findings.jsonl: %s" % (key, what), {"finding.txt": what})
        cov = {"evaluations": int(evaluations), "distinct_nontrivial": int(distinct), "rule": rule,
               "samples": self.samples[:4] or ["(none)"], "observed": self.n}
        cov.update(self.cov)
        ev = {"property": self.prop, "tier": TIER, "seed": SEED, "level": self.level, "coverage": cov,
              "assumptions": list(assumptions), "wall_s": round(self.elapsed(), 2),
              "violations": len(self.violations)}
        if self.notes:
            ev["coverage"]["notes"] = self.notes[:20]
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)
            f.write("\n")
        for what, d in self.violations[:10]:
            print("  " + what.replace("\n", "\n  ")[:1500])
            print("VIOLATION property=%s replay=%s" % (self.prop, d))
        print("%s: %d evaluations, %d distinct non-trivial, %d violations, %.1f s" %
              (self.prop, evaluations, distinct, len(self.violations), self.elapsed()))
        return 1 if self.violations else 0


def known_findings():
    p = os.path.join(VERIF, "known-findings.jsonl")
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith("#") and l.startswith("{"):
                out.append(json.loads(l))
    return [f for f in out if f.get("status") != "fixed"]
