"""C18, C19: positions and primitives; independence of calls."""
from common import *
import engine
import scale
from engine import Job


def probe(chk, peg, name, args, flags=(), env=None, timeout=300, toolchain=None, label=None):
    """Compile and run a probe program that prints `STAT name n` and `BAD what`."""
    src = os.path.join(VERIF, "probes", name)
    out = os.path.join(chk.dir, (label or name)[:-3])
    x = rustc(src, out, peg.ext, toolchain or peg.toolchain, flags)
    if x.rc != 0:
        chk.violation("%s, which uses only the documented interface, does not compile: %s" % (name, engine.first_error(x.err)),
                      {"rustc.txt": x.err, "program.rs": open(src).read()})
        return {}
    y = run([out] + list(args), timeout=timeout, cpu=timeout, mem_gb=None if env else 16, env=env)
    stats = {}
    for l in y.out.splitlines():
        p = l.split(" ", 2)
        if l.startswith("STAT "):
            stats[p[1]] = stats.get(p[1], 0) + int(p[2])
    bad = [l[4:] for l in y.out.splitlines() if l.startswith("BAD ")]
    if bad or y.rc != 0:
        what = "; ".join(bad[:4]) or "exit %s: %s" % (y.rc, y.err[-1500:])
        chk.violation("%s: %s" % (name, what),
                      {"program.rs": open(src).read(), "out.txt": y.out[-20000:], "err.txt": y.err[-20000:],
                       "replay.sh": "# compile program.rs against /repo's peg and run it with: %s\n" % " ".join(args)})
    for k, v in stats.items():
        chk.add("probe." + k, v)
    return stats


def c18():
    chk = Check("C18")
    mon, peg = build_mon(), build_peg()
    st = probe(chk, peg, "primitives.rs", [str(SEED), "60000" if THOROUGH else "5000"], flags=("-C", "opt-level=1"))
    n = 600 if THOROUGH else 40
    engine.run_jobs(chk, mon, peg, [Job("unicode", "linecol", b, 30, 120) for b in range(n)])
    scale.check(chk, peg)
    return chk.finish("every primitive of str, [u8] and [T] at every reachable position of random hostile inputs (one evaluation = one primitive call "
                      "compared), and error positions, slices and values of random multi-byte grammars (one evaluation = one call of an exported rule)",
                      sum(st.values()) + chk.n.get("cases", 0) + chk.n.get("large_cases", 0), chk.n.get("distinct_nontrivial", 0))


def c19():
    chk = Check("C19")
    mon, peg = build_mon(), build_peg()
    n = 400 if THOROUGH else 32
    engine.run_jobs(chk, mon, peg, [Job("isolate", "value", b, 20, 24, mode="isolate") for b in range(n)])
    scale.check(chk, peg)
    return chk.finish("one evaluation is one call compared with the result of the same call alone on a fresh thread: after other calls in shuffled "
                      "order, twice in a row, after calls interrupted by an injected panic, around and inside nested calls, and among 8 threads with "
                      "random delays inside actions; a case is non-trivial if its input is not empty and at least 2 actions, guards or input methods run",
                      chk.n.get("cases", 0) + chk.n.get("large_cases", 0), chk.n.get("distinct_nontrivial", 0))


def c20():
    chk = Check("C20")
    mon, peg = build_mon(), build_peg(features=("trace",))
    n = 300 if THOROUGH else 32
    jobs = [Job("trace", "value", b, 20, 60, mode="trace") for b in range(n)]
    jobs += [Job("prec", "value", 1000 + b, 20, 40, mode="trace") for b in range(n // 4)]
    engine.run_jobs(chk, mon, peg, jobs)
    if chk.n.get("traces_compared", 0) < 1000 and not chk.violations:
        raise Inconclusive("hardly any trace was compared: %s" % chk.n)
    return chk.finish("one evaluation is the log of one call (every line of both passes of a failing parse) compared with the evaluations the reference "
                      "model makes, and checked for pairing on its own; distinct by the sequence of trace lines, non-trivial from 4 lines per pass",
                      chk.n.get("cases", 0), chk.n.get("distinct_nontrivial", 0))


def nostd_probe(chk, builds):
    """The same no_std crate against every build: all must compile and print the same."""
    outs = {}
    for name, peg in builds:
        d = os.path.join(chk.dir, "nostd-" + name)
        os.makedirs(d, exist_ok=True)
        lib = os.path.join(d, "libnostd_lib.rlib")
        x = rustc(os.path.join(VERIF, "probes", "nostd_lib.rs"), lib, peg.ext, peg.toolchain, ("--crate-type", "rlib"), crate_name="nostd_lib")
        if x.rc != 0:
            # println! of the trace feature needs the standard library
            if name != "trace":
                chk.violation("a #![no_std] crate with a grammar does not compile in the %s build: %s" % (name, engine.first_error(x.err)), {"rustc.txt": x.err})
            continue
        x = rustc(os.path.join(VERIF, "probes", "nostd_main.rs"), os.path.join(d, "m"), ["--extern", "nostd_lib=" + lib] + peg.ext, peg.toolchain)
        if x.rc != 0:
            raise Inconclusive("nostd_main: " + x.err[-1000:])
        y = run([os.path.join(d, "m")], timeout=60)
        outs[name] = (y.rc, y.out)
        chk.add("nostd_results", len(y.out.splitlines()))
    if len(set(outs.values())) > 1:
        chk.violation("a #![no_std] crate's parsers differ between builds", {k + ".txt": str(v) for k, v in outs.items()})


def c22():
    chk = Check("C22")
    mon = build_mon()
    builds = [("default", build_peg()), ("no-default-features", build_peg(default_features=False)), ("trace", build_peg(features=("trace",)))]
    n = 200 if THOROUGH else 5
    jobs = [Job(p, "value", 2200 + b, 22, 80, mode="dump") for p in ("general", "cache", "prec", "leftrec", "inputs", "params") for b in range(n)]
    t0 = time.time()

    def one(job):
        if time.time() - t0 > (2400 if THOROUGH else 170) or len(chk.violations) > 10:
            chk.add("programs_not_started")
            return
        work = os.path.join(chk.dir, "w-%s-%d" % (job.profile, job.batch))
        seen = {}
        for name, peg in builds:
            d = os.path.join(work, name)
            os.makedirs(d, exist_ok=True)
            src, binp = os.path.join(d, "p.rs"), os.path.join(d, "p")
            engine.emit(mon, job, src)
            x = rustc(src, binp, mon.ext + peg.ext, peg.toolchain, json_errors=True)
            if x.rc != 0:
                seen[name] = ("compile", x)
                continue
            recs = engine.execute(chk, mon, peg, job, binp, d)
            out = os.path.join(d, "out.jsonl.dump")
            ls = dict((l.split("\t")[0], l.rstrip("\n").split("\t")[1:]) for l in open(out)) if os.path.exists(out) else {}
            seen[name] = ("ran", ls)
            chk.add("programs." + name)
            chk.add("results." + name, len(ls))
            if name == "default":
                engine.collate(chk, mon, job, d, recs)
            os.remove(binp)
        base = seen["default"]
        for name, _ in builds[1:]:
            kind, got = seen[name]
            if base[0] == kind == "compile":
                chk.add("programs_compiling_nowhere")
            elif base[0] != kind:
                if "SIGKILL" in str(getattr(got, "err", "")) or "SIGKILL" in str(getattr(base[1], "err", "")):
                    continue
                chk.violation("a program of generated grammars (profile %s, batch %d) compiles in one of the builds default and %s only: %s"
                              % (job.profile, job.batch, name, engine.first_error((got if kind == "compile" else base[1]).err)),
                              {"program.rs": open(os.path.join(work, name, "p.rs")).read()})
            elif base[1] != got:
                diff = [k for k in sorted(set(base[1]) | set(got)) if base[1].get(k) != got.get(k)]
                k = diff[0]
                one = os.path.join(work, "one.rs")
                engine.emit(mon, job, one, frm=int(k.split(":")[0]), count=1)
                chk.violation("the %s build gives %s for case %s of profile %s batch %d, the default build %s (%d cases differ)"
                              % (name, got.get(k), k, job.profile, job.batch, base[1].get(k), len(diff)),
                              {"grammar.rs": open(one).read(), "cases.txt": "\n".join(diff[:200])})
            else:
                chk.add("results_equal", len(got))
        shutil.rmtree(work, ignore_errors=True)

    pmap(one, jobs)
    for name, peg in builds:
        probe(chk, peg, "primitives.rs", [str(SEED), "800"], label="primitives-%s.rs" % name)
    nostd_probe(chk, builds)
    for name, peg in builds[1:]:
        programs_under(chk, peg, name)
    if not chk.violations and chk.n.get("results_equal", 0) < 1000:
        raise Inconclusive("hardly any result was compared: %s" % chk.n)
    return chk.finish("the same programs of generated grammars built against the default, the no-default-features and the trace build of the library; one "
                      "evaluation compares everything one call returned (value or full error, and for custom inputs the primitive calls made) with the default build",
                      chk.n.get("results_equal", 0), chk.n.get("distinct_nontrivial", 0))


SCOPES = ("shadowing_prelude", "types_named_like_generated_ones", "variants_named_like_the_prelude")


def programs_under(chk, peg, name, only=None):
    import features, random
    rng = random.Random(SEED * 31 + 5)
    jobs = [("whole_" + n, "#![allow(warnings)]\n" + t) for n, t in features.WHOLE]
    if only:
        jobs = [j for j in jobs if j[0][6:] in only]
    else:
        jobs += [("feat", features.program(list(enumerate(features.STR)), rng))]

    def one(j):
        n, text = j
        src = os.path.join(chk.dir, "%s-%s.rs" % (name, n))
        out = src[:-3]
        open(src, "w").write(text)
        x = rustc(src, out, peg.ext, peg.toolchain)
        if x.rc == 1:
            chk.violation("feature program %s does not compile in the %s build: %s" % (n, name, engine.first_error(x.err)), {"program.rs": text})
        elif x.rc == 0:
            y = run([out], timeout=60, cpu=60, mem_gb=8)
            bad = [l for l in y.out.splitlines() if l.startswith("BAD")]
            chk.add("feature_checks." + name, len([l for l in y.out.splitlines() if l.startswith("ok")]) or 1)
            if y.rc != 0 or bad:
                chk.violation("feature program %s fails in the %s build: %s" % (n, name, bad or y.err[-300:]), {"program.rs": text, "stdout.txt": y.out})
        for f in (src, out):
            if os.path.exists(f):
                os.remove(f)
    pmap(one, jobs)
