"""C23: undefined behaviour, out-of-bounds access, races and overflow in running parsers."""
import re
from common import *
import engine
import behaviour
from engine import Job

TARGET = "x86_64-unknown-linux-gnu"
PANICS = re.compile(r"overflow|out of range|out of bounds|char boundary|unsafe precondition|capacity|misaligned|null pointer|already borrowed|already mutably borrowed|unreachable")
BAD_EXIT = {"address": "AddressSanitizer", "thread": "ThreadSanitizer"}


def san_env(kind):
    e = base_env(NIGHTLY)
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99:detect_stack_use_after_return=1:symbolize=0:allocator_may_return_null=1"
    e["TSAN_OPTIONS"] = "exitcode=99:halt_on_error=1:symbolize=0:report_bugs=1"
    return e


class San:
    def __init__(self, kind):
        self.kind = kind
        fl = "-Zsanitizer=" + kind
        self.peg = build_peg(toolchain=NIGHTLY, target=TARGET, rustflags=fl, zbuild=("-Zbuild-std",))
        self.mon = build_mon(NIGHTLY, tuple(["-O", fl] + self.peg.std), target=TARGET, tag=kind)
        self.flags = ("--target", TARGET, fl)
        self.env = san_env(kind)

    def verdict(self, x):
        """what the sanitizer said, if it said something"""
        for l in x.err.splitlines():
            if "ERROR: " + BAD_EXIT[self.kind] in l or "WARNING: " + BAD_EXIT[self.kind] in l:
                return l.strip()
        return None


def miri_crate(peg_repo, programs):
    """A crate whose binaries are probes and generated programs, to be interpreted."""
    d = os.path.join(BUILD, "miri-crate")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(os.path.join(d, "src", "bin"))
    os.makedirs(os.path.join(d, "pegmon"))
    shutil.copy(os.path.join(peg_repo, "Cargo.lock"), d)
    with open(os.path.join(d, "pegmon", "Cargo.toml"), "w") as f:
        f.write('[package]\nname = "pegmon"\nversion = "0.0.0"\nedition = "2021"\n[lib]\npath = "%s/pegmon/src/lib.rs"\n' % VERIF)
    with open(os.path.join(d, "Cargo.toml"), "w") as f:
        f.write('[package]\nname = "mc"\nversion = "0.0.0"\nedition = "2021"\n[dependencies]\npeg = { path = "%s" }\npegmon = { path = "pegmon" }\n'
                '[profile.dev.package.pegmon]\nopt-level = 0\n[workspace]\n' % peg_repo)
    for name, text in programs.items():
        open(os.path.join(d, "src", "bin", name + ".rs"), "w").write(text)
    return d


class Miri:
    def __init__(self, programs):
        self.dir = miri_crate(REPO, programs)
        self.env = base_env(NIGHTLY)
        self.env["XDG_CACHE_HOME"] = os.path.join(BUILD, "cache")
        os.makedirs(self.env["XDG_CACHE_HOME"], exist_ok=True)
        self.target = os.path.join(BUILD, "miri-target")
        x = run(["cargo", "miri", "setup"], env=self.env, timeout=600, cwd=self.dir)
        if x.rc != 0:
            raise Inconclusive("cargo miri setup: " + x.err[-2000:])

    def run(self, name, args, flags="", timeout=600):
        e = dict(self.env)
        e["MIRIFLAGS"] = "-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-permissive-provenance " + flags
        return run(["cargo", "miri", "run", "-q", "--offline", "--target-dir", self.target, "--bin", name, "--"] + list(args), env=e, timeout=timeout, cwd=self.dir)

    def build(self):
        """compile everything once; the runs below then only interpret"""
        e = dict(self.env)
        e["MIRIFLAGS"] = "-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-permissive-provenance "
        return run(["cargo", "miri", "run", "-q", "--offline", "--target-dir", self.target, "--bin", "warm"], env=e, timeout=900, cwd=self.dir)


def miri_error(x):
    m = re.search(r"^error: (?!aborting|process didn't)(.*(?:\n.*){0,6})", x.err, re.M)
    return m.group(0)[:900] if m else None


def c23():
    chk = Check("C23")
    # everything that has to be compiled first, side by side
    made, errs = {}, []
    njobs = 200 if THOROUGH else 8
    jobs = [Job(p, "value", 2300 + b, 16, 80, mode="dump") for b in range(max(1, njobs // 8)) for p in
            ("general", "cache", "prec", "leftrec", "inputs", "params", "unicode", "recog")]
    nmiri = 40 if THOROUGH else 4
    mjobs = [Job(p, "value", 2350 + b, 6, 6 if not THOROUGH else 12, mode="dump") for b in range(max(1, nmiri // 4)) for p in ("general", "inputs", "unicode", "cache")]
    mon = build_mon()

    def prog(j):
        f = os.path.join(chk.dir, "emit-%s-%d.rs" % (j.profile, j.batch))
        engine.emit(mon, j, f)
        return open(f).read()
    programs = {"warm": "fn main() { let _ = peg::RuleResult::Matched(1usize, ()); let _ = pegmon::rng::mix(1); }"}
    for n in ("primitives", "threads", "wild"):
        programs[n] = open(os.path.join(VERIF, "probes", n + ".rs")).read()
    for i, j in enumerate(mjobs):
        programs["gen%d" % i] = prog(j)

    def make(k):
        try:
            if k == "miri":
                m = Miri(programs)
                x = m.build()
                if x.rc != 0:
                    raise Inconclusive("building for Miri: " + x.err[-2000:])
                made[k] = m
            elif k == "plain":
                # what the others are compared with: the same compiler, no instrumentation
                made[k] = (build_mon(NIGHTLY), build_peg(toolchain=NIGHTLY))
            else:
                made[k] = San(k)
        except Inconclusive as e:
            errs.append(e)
    pmap(make, ["address", "thread", "miri", "plain"])
    if errs:
        raise errs[0]
    miri, asan, tsan = made["miri"], made["address"], made["thread"]
    mon, peg = made["plain"]
    todo = []

    # -- sanitizers on generated parsers, against what a plain build returns
    def generated(job):
        work = os.path.join(chk.dir, "w-%s-%d" % (job.profile, job.batch))
        os.makedirs(work, exist_ok=True)
        binp, skip = engine.compile_job(chk, mon, peg, job, work)
        if not binp:
            return
        feed = os.path.join(work, "feed")
        engine.execute(chk, mon, peg, job, binp, work, ("--feed", feed))
        chk.add("programs")
        if not os.path.exists(feed):
            return
        overflows(chk, mon, job, work, feed)
        if len(chk.samples) < 4:
            p = open(feed).readline().rstrip("\n").split("\t")
            if len(p) > 7:
                chk.samples.append({"profile": job.profile, "case": p[0], "input": p[5], "result": p[7]})
        for san, threads in ((asan, 1), (tsan, 8)):
            b = os.path.join(work, "p-" + san.kind)
            opt = ("-C", "opt-level=%d" % (job.batch % 2))
            x = rustc(os.path.join(work, "p.rs"), b, san.mon.ext + san.peg.ext, NIGHTLY, san.flags + opt, timeout=600)
            if x.rc != 0:
                if x.rc == 1:
                    raise Inconclusive("nightly does not compile a generated program: " + engine.first_error(x.err))
                chk.add("programs_rustc_killed")
                continue
            out = os.path.join(work, "out-" + san.kind)
            y = run([b, "--mode", "feed", "--feed", feed, "--threads", str(threads), "--out", out], env=san.env, timeout=300)
            judge(chk, mon, job, work, san.kind, y, out, san.verdict(y))
        shutil.rmtree(work, ignore_errors=True)

    def judge(chk, mon, job, work, how, y, out, said):
        src = os.path.join(work, "p.rs")
        text = open(src).read() if os.path.exists(src) else ""
        if said:
            chk.violation("%s: %s (profile %s, batch %d)" % (how, said, job.profile, job.batch), {"program.rs": text, "report.txt": y.err[-20000:]})
            return
        if y.timed_out:
            chk.add("%s.timed_out" % how)
            return
        recs = [json.loads(l) for l in open(out)] if os.path.exists(out) else []
        st = [r for r in recs if r["type"] == "stats"]
        if y.rc != 0 or not st:
            if "panic" in y.err or y.rc == 70 or y.rc < 0:
                chk.violation("%s: the program ended with %s where a plain build does not: %s" % (how, y.rc, y.err[-600:]), {"program.rs": text, "report.txt": y.err[-20000:]})
            else:
                chk.add("%s.lost" % how)
                chk.notes.append("%s: exit %s: %s" % (how, y.rc, y.err[-300:]))
            return
        for k, v in st[0]["n"].items():
            chk.add("%s.%s" % (how, k), v)
        for r in recs:
            if r["type"] == "violation":
                g = int(r["case"].split(":")[0])
                one = os.path.join(work, "viol.rs")
                engine.emit(mon, job, one, frm=g, count=1)
                chk.violation("%s: case %s (%s) gives %s where a plain, single-threaded build gives %s" % (how, r["case"], r["how"], r["got"][:300], r["want"][:300]),
                              {"grammar.rs": open(one).read(), "case.json": json.dumps(r)})

    def overflows(chk, mon, job, work, feed):
        """a plain build checks arithmetic, bounds and character boundaries"""
        for l in open(feed):
            p = l.rstrip("\n").split("\t")
            if len(p) < 8:
                # the program was interrupted (reported above)
                continue
            chk.add("checked.calls")
            if 'Panic("' in p[7] and PANICS.search(p[7]):
                g = int(p[0].split(":")[0])
                one = os.path.join(work, "viol.rs")
                engine.emit(mon, job, one, frm=g, count=1)
                chk.violation("case %s of profile %s batch %d panics: %s" % (p[0], job.profile, job.batch, p[7]), {"grammar.rs": open(one).read(), "case.txt": l})

    def probe_san(x):
        name, san, args, opt = x
        out = os.path.join(chk.dir, "%s-%s-%s" % (name, san.kind, opt))
        r = rustc(os.path.join(VERIF, "probes", name + ".rs"), out, san.peg.ext, NIGHTLY, san.flags + ("-C", "opt-level=" + opt))
        if r.rc != 0:
            chk.violation("%s.rs, which uses only the documented interface and carries results between threads, does not compile: %s" % (name, engine.first_error(r.err)),
                          {"rustc.txt": r.err, "program.rs": programs[name]})
            return
        y = run([out] + args, env=san.env, timeout=400)
        probe_judge(name, san.kind, args, y, san.verdict(y))

    def probe_judge(name, how, args, y, said):
        stats = [l.split() for l in y.out.splitlines() if l.startswith("STAT ")]
        bad = [l[4:] for l in y.out.splitlines() if l.startswith("BAD ")]
        if said or bad or (y.rc != 0 and not y.timed_out):
            chk.violation("%s on probes/%s.rs %s: %s" % (how, name, " ".join(args), said or "; ".join(bad[:3]) or "exit %s: %s" % (y.rc, y.err[-900:])),
                          {"program.rs": programs[name], "out.txt": y.out[-20000:], "err.txt": y.err[-20000:]})
        if y.timed_out:
            chk.add(how + ".timed_out")
        for _, k, v in stats:
            chk.add("%s.%s" % (how, k), int(v))

    def probe_miri(x):
        name, args, flags = x
        y = miri.run(name, args, flags, timeout=1500 if THOROUGH else 400)
        probe_judge(name, "miri", args, y, miri_error(y))
        chk.add("miri.runs")

    def generated_miri(x):
        i, job = x
        work = os.path.join(chk.dir, "m-%s-%d" % (job.profile, job.batch))
        os.makedirs(work, exist_ok=True)
        binp, skip = engine.compile_job(chk, mon, peg, job, work)
        if not binp or skip:
            return
        feed = os.path.join(work, "feed")
        engine.execute(chk, mon, peg, job, binp, work, ("--feed", feed))
        ls = open(feed).readlines() if os.path.exists(feed) else []
        ls = ls[::max(1, len(ls) // (300 if THOROUGH else 120))]
        open(feed, "w").writelines(ls)
        out = os.path.join(work, "out-miri")
        y = miri.run("gen%d" % i, ["--mode", "feed", "--feed", feed, "--threads", "3", "--out", out], "-Zmiri-seed=%d" % (SEED * 100 + i), timeout=1500 if THOROUGH else 400)
        judge(chk, mon, job, work, "miri", y, out, miri_error(y))
        chk.add("miri.runs")

    S = str(SEED)
    big = THOROUGH
    for opt in ("0", "3"):
        todo.append((probe_san, ("primitives", asan, [S, "20000" if big else "1200"], opt)))
        todo.append((probe_san, ("wild", asan, [S, "20000" if big else "1500"], opt)))
        todo.append((probe_san, ("threads", asan, [S, "4", "800" if big else "80"], opt)))
        todo.append((probe_san, ("threads", tsan, [S, "8", "1500" if big else "150"], opt)))
    for k in range(24 if big else 3):
        todo.append((probe_miri, ("primitives", [str(SEED * 50 + k), "8"], "-Zmiri-seed=%d" % k)))
        todo.append((probe_miri, ("wild", [str(SEED * 50 + k), "10"], "-Zmiri-seed=%d" % k)))
        todo.append((probe_miri, ("threads", [str(SEED * 50 + k), "3", "3"], "-Zmiri-seed=%d -Zmiri-preemption-rate=0.1" % k)))
    todo += [(generated_miri, x) for x in enumerate(mjobs)]
    todo += [(generated, j) for j in jobs]
    t0 = time.time()

    def guarded(x):
        if time.time() - t0 > (3600 if THOROUGH else 360) or len(chk.violations) > 12:
            chk.add("runs_not_started")
            return
        try:
            x[0](x[1])
        except Inconclusive as e:
            errs.append(e)
    pmap(guarded, todo)
    if errs and not chk.violations:
        raise errs[0]
    n = chk.n
    if not chk.violations and (n.get("address.calls", 0) < 100 or n.get("thread.calls", 0) < 100 or n.get("miri.runs", 0) < 4):
        raise Inconclusive("the sanitizers saw too little: %s %s" % (n, chk.notes[:3]))
    ev = sum(v for k, v in n.items() if k.split(".")[0] in ("address", "thread", "miri") and (k.endswith(".calls") or k.endswith("among_threads") or "wild" in k or "parse_" in k or "is_eof" in k))
    return chk.finish("one evaluation is one call of a real parser or input primitive under AddressSanitizer, ThreadSanitizer (8 threads) or Miri (3 threads), each with "
                      "its standard library built the same way; results are also compared with a plain build's; distinct cases are the fed (parser, input) pairs",
                      ev, n.get("address.cases", 0) + n.get("miri.cases", 0))
