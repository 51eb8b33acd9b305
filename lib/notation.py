"""C12, C13, C14, C15, C16: what the macro makes of a grammar text."""
import random, re
import demos, engine, features, macro
from common import *
from engine import Job
from macro import run_bin, write

LANG_PROFILES = ["recog", "value", "repeat", "eof", "errset", "suppress", "prec", "cache", "leftrec", "params", "inputs", "hygiene", "general", "unicode"]


def tag_exec(chk, prefix, v):
    chk.add(prefix + v.kind)


def slow_again(peg, path):
    """a time limit passed on a loaded machine says little: give it the machine's time"""
    return run_bin(peg, path, timeout=90)


def judged(chk, peg, path, what):
    """run the binary; a panic or a hang is a violation of C14 and returns None"""
    v = run_bin(peg, path)
    if v.kind == "hang":
        v = slow_again(peg, path)
    if v.kind in ("panic", "hang"):
        if chk.prop == "C14":
            chk.violation("the macro %s on %s: %s" % ("panics" if v.kind == "panic" else "does not terminate", what, v.msgs[:1]),
                          {"grammar.rustpeg": open(path).read(), "stderr.txt": v.r.err[-4000:]})
        return None
    return v


# ---------------------------------------------------------------- C12

def c12():
    chk = Check("C12")
    mon, peg = build_mon(), build_peg(with_bin=True)
    nb, per = (12, 1000) if not THOROUGH else (240, 1000)
    d = os.path.join(chk.dir, "raw")

    def batch(b):
        bd = os.path.join(d, str(b))
        for path, verdict in macro.raw_batch(mon, SEED, b, per, bd):
            v = judged(chk, peg, path, "a small grammar")
            if v is None:
                chk.add("macro_gave_no_answer")
                continue
            chk.add("verdict_%s_macro_%s" % (verdict, v.kind))
            if verdict in ("Loop", "LeftRecursion") and v.kind == "ok":
                chk.violation("the macro accepts a grammar that %s" % (
                    "loops without consuming input" if verdict == "Loop" else "calls a rule again before consuming input"),
                    {"grammar.rustpeg": open(path).read(), "replay.sh": "%s grammar.rustpeg | grep -c compile_error\n" % peg.bin})
        shutil.rmtree(bd, ignore_errors=True)
    # the engine first: it needs the most time and the most memory
    jobs = []
    for profile, q, t in (("raw", 16, 300), ("repeat", 8, 120), ("leftrec", 6, 100), ("prec", 6, 100), ("params", 4, 80)):
        jobs += [Job(profile, "termination", 100 + b, 30, 120) for b in range(t if THOROUGH else q)]
    engine.run_jobs(chk, mon, peg, jobs)
    pmap(batch, range(nb))
    demos.run_demos(chk, peg)
    n = sum(v for k, v in chk.n.items() if k.startswith("verdict_"))
    chk.cov["grammars_judged_by_both"] = n
    chk.samples.append({"raw_grammars": n, "with_verdict_bad": sum(v for k, v in chk.n.items() if k.startswith(("verdict_Loop", "verdict_Left")))})
    return chk.finish("static part: random small grammars (loops, recursion, nullable pieces everywhere) given to the macro's own code; what an independent "
                      "analysis calls a loop or left recursion must be rejected; non-trivial: the analysis is certain. Dynamic part: accepted grammars run with a "
                      "watch on primitive calls per model step and on the clock",
                      n + chk.n.get("cases", 0),
                      sum(v for k, v in chk.n.items() if k.startswith(("verdict_Loop", "verdict_Left", "verdict_Fine"))) + chk.n.get("distinct_nontrivial", 0))


# ---------------------------------------------------------------- C13

def c13():
    chk = Check("C13")
    mon, peg = build_mon(), build_peg(with_bin=True)
    d = os.path.join(chk.dir, "t")

    def reject(path, v, what):
        chk.violation("the macro rejects a well-formed grammar (%s): %s" % (what, v.msgs[:3]), {"grammar.rustpeg": open(path).read(), "said.txt": "\n".join(v.msgs)})

    def raw(b):
        bd = os.path.join(d, "raw%d" % b)
        for path, verdict in macro.raw_batch(mon, SEED, 5000 + b, 700, bd):
            if verdict == "Fine":
                v = judged(chk, peg, path, "a well-formed grammar")
                chk.add("raw_wellformed")
                if v and v.kind != "ok":
                    reject(path, v, "no loops, no left recursion")
        shutil.rmtree(bd, ignore_errors=True)

    def texts(pb):
        profile, b = pb
        bd = os.path.join(d, "%s%d" % pb)
        for group in macro.text_batch(mon, profile, SEED, 6000 + b, 40, bd):
            for path in group:
                v = judged(chk, peg, path, "a well-formed grammar")
                chk.add("typed_texts")
                if v and v.kind != "ok":
                    reject(path, v, "profile " + profile)
        shutil.rmtree(bd, ignore_errors=True)
    pmap(raw, range(8 if not THOROUGH else 150))
    pmap(texts, [(p, b) for p in LANG_PROFILES for b in range(2 if not THOROUGH else 25)])

    # headers, types and uses built to be legal
    hrng = random.Random(SEED * 17 + 3)
    hd = os.path.join(chk.dir, "h")
    os.makedirs(hd, exist_ok=True)

    def legal(it):
        i, t = it
        path = os.path.join(hd, "%d.rustpeg" % i)
        write(path, t)
        v = judged(chk, peg, path, "a well-formed grammar")
        chk.add("legal_headers")
        if v and v.kind != "ok":
            reject(path, v, "legal headers, types and uses")
        os.remove(path)
    pmap(legal, list(enumerate([valid_header(hrng) for _ in range(3000 if not THOROUGH else 60000)])))

    # whole programs whose embedded Rust is the point, alone and in random company
    def prog(job):
        name, text, run_it = job
        src = os.path.join(chk.dir, name + ".rs")
        write(src, text)
        out = src[:-3]
        x = rustc(src, out, peg.ext, peg.toolchain)
        chk.add("feature_programs")
        if x.rc == 1 and not x.timed_out:
            chk.violation("a program of well-formed grammars does not compile (%s): %s" % (name, engine.first_error(x.err)),
                          {"program.rs": text, "rustc.txt": x.err[-8000:]})
        elif x.rc != 0:
            chk.add("programs_rustc_killed")
            chk.notes.append("rustc %s on %s" % (x.rc, name))
        elif run_it:
            y = run([out], timeout=60, cpu=60, mem_gb=8)
            bad = [l for l in y.out.splitlines() if l.startswith("BAD")]
            chk.add("feature_checks_passed", len([l for l in y.out.splitlines() if l.startswith("ok")]) or (1 if y.rc == 0 else 0))
            if y.rc != 0 or bad:
                chk.violation("a parser with embedded Rust does not do what its grammar says (%s): %s" % (name, bad or y.err[-300:]),
                              {"program.rs": text, "stdout.txt": y.out, "stderr.txt": y.err[-4000:]})
        for f in (src, out):
            if os.path.exists(f):
                os.remove(f)
    rng = random.Random(SEED * 7 + 1)
    jobs = [("whole_" + n, "#![allow(warnings)]\n" + t, True) for n, t in features.WHOLE]
    every = list(features.STR)
    for k in range(10 if not THOROUGH else 150):
        fs = every * (2 if k % 5 == 4 else 1)
        rng.shuffle(fs)
        if k:
            fs = fs[:rng.choice([4, 8, 15, 30, 60])]
        jobs.append(("feat%d" % k, features.program(list(enumerate(fs)), rng), True))
    pmap(prog, jobs)

    ejobs = []
    for p in LANG_PROFILES:
        ejobs += [Job(p, "recog", 7000 + b, 30, 0) for b in range(2 if not THOROUGH else 30)]
    compile_only(chk, mon, peg, ejobs)
    chk.samples += [{"feature": f[0], "rules": f[2].strip()[:300]} for f in random.Random(SEED).sample(every, 3)]
    n = chk.n.get("raw_wellformed", 0) + chk.n.get("legal_headers", 0) + chk.n.get("typed_texts", 0) + chk.n.get("feature_checks_passed", 0) + chk.n.get("grammars_type_checked", 0)
    return chk.finish("well-formed grammars of every generator profile in four spellings, well-formed random recursive grammars, and programs combining grammars that embed "
                      "each kind of Rust the notation admits; accepted by the macro, type-checked by rustc, feature programs run with assertions; each grammar counts once per spelling",
                      n, n)


def compile_only(chk, mon, peg, jobs):
    def one(job):
        if len(chk.violations) >= 25:
            return
        work = os.path.join(chk.dir, "c-%s-%d" % (job.profile, job.batch))
        os.makedirs(work, exist_ok=True)
        binp, skip = engine.compile_job(chk, mon, peg, job, work, ("--emit=metadata",))
        if binp:
            chk.add("grammars_type_checked", job.grammars - len(skip))
        shutil.rmtree(work, ignore_errors=True)
    pmap(one, jobs)


# ---------------------------------------------------------------- C14

def c14():
    chk = Check("C14")
    mon, peg = build_mon(), build_peg(with_bin=True)
    peg.mon_ext = mon.ext
    d = os.path.join(chk.dir, "t")
    bases = []
    for p in LANG_PROFILES:
        for g in macro.text_batch(mon, p, SEED, 8000, 12 if not THOROUGH else 60, os.path.join(d, p)):
            bases += [open(g[0]).read(), open(g[2]).read()]
    rng = random.Random(SEED * 13 + 5)
    rng.shuffle(bases)

    # located errors, through rustc
    faults = []
    table = list(macro.FAULTS)
    for rep in range(3 if not THOROUGH else 40):
        for f in table:
            faults.append(macro.planted(rng.choice(bases), rng, f))
    for b in bases * (4 if not THOROUGH else 10):
        faults.append(macro.foreign(b, rng))
        t = macro.truncated(b, rng)
        if t:
            faults.append(t)
    rng.shuffle(faults)
    groups = [faults[i:i + 50] for i in range(0, len(faults), 50)]

    def located(ig):
        i, fs = ig
        bad, n, x = macro.check_faults(peg, fs, chk.dir, "faults%d" % i)
        if bad is None:
            # find the invocation that does not end
            if len(fs) > 1:
                for j, f in enumerate(fs):
                    b1, _, _ = macro.check_faults(peg, [f], chk.dir, "faults%d_%d" % (i, j))
                    if b1 is None:
                        chk.violation("the macro does not terminate on a grammar with a planted error (%s)" % f.kind, {"grammar.rustpeg": f.text})
                        return
            chk.add("programs_rustc_killed")
            return
        if n == 0 and x.rc not in (0, 1):
            chk.add("programs_rustc_killed")
            chk.notes.append("rustc %s: %s" % (x.rc, x.err[-300:]))
            return
        chk.add("faults_planted", len(fs))
        chk.add("errors_located", n)
        for f in fs:
            chk.add("fault_" + f.kind)
        for f, what in bad:
            chk.violation("%s: %s" % (f.kind, what), {"grammar.rustpeg": f.text, "expected.txt": "error matching %s within %r" % (f.pat.pattern, f.text[f.a:f.b])})
        for e in (".rs", ".out"):
            try:
                os.remove(os.path.join(chk.dir, "faults%d%s" % (i, e)))
            except OSError:
                pass
    pmap(located, list(enumerate(groups)))

    # every token stream gets an answer
    hostile = []
    for i in range(1500 if not THOROUGH else 30000):
        k = i % 10
        if k < 2:
            t = macro.soup(rng, rng.choice([3, 10, 40, 150]))
        elif k < 4:
            t = "grammar g() for str { %s }" % macro.soup(rng, rng.choice([3, 10, 40, 150]))
        elif k < 5:
            t = "grammar g() for str { pub rule r() = %s }" % macro.soup(rng, rng.choice([2, 5, 12, 40]))
        else:
            t = macro.mutate(rng.choice(bases), rng, [x.text for x in macro.lex(rng.choice(bases)) if x.text not in "()[]{}"])
        hostile.append(t)
    hd = os.path.join(chk.dir, "h")
    os.makedirs(hd, exist_ok=True)
    syntax = []

    def fuzz(it):
        i, t = it
        path = os.path.join(hd, "%d.rustpeg" % i)
        write(path, t)
        v = judged(chk, peg, path, "a hostile token stream")
        if v:
            chk.add("hostile_" + v.kind)
            if v.kind == "syntax":
                syntax.append(t)
                if not v.msgs[0]:
                    chk.violation("a syntax error does not say what was expected", {"grammar.rustpeg": t})
        os.remove(path)
    pmap(fuzz, list(enumerate(hostile)))

    # the same through the proc macro: an error inside the invocation that says what was expected
    sy = syntax[:]
    rng.shuffle(sy)
    sy = [macro.Fault("hostile_syntax", t, 0, len(t), re.compile("^expected ")) for t in sy[:600 if not THOROUGH else 6000]]
    for f in sy:
        f.call_site = True
    pmap(located, [(10000 + i, sy[i:i + 50]) for i in range(0, len(sy), 50)])

    # large grammars
    for name, t, want in macro.big_texts():
        path = os.path.join(chk.dir, "big.rustpeg")
        write(path, t)
        v = judged(chk, peg, path, "the large grammar " + name)
        if v:
            chk.add("large_grammars")
            if want and v.kind != want:
                chk.violation("the macro answers %s instead of %s to the large grammar %s: %s" % (v.kind, want, name, v.msgs[:2]), {"grammar.rustpeg": t})
    chk.samples += [{"fault": f.kind, "at": f.text[max(0, f.a - 40):f.b + 10]} for f in faults[:3]]
    n = chk.n.get("faults_planted", 0) + sum(v for k, v in chk.n.items() if k.startswith("hostile_"))
    return chk.finish("single faults of every kind planted in generated grammars, a foreign token at a random place of a rule, a body cut short (errors read from rustc's JSON: "
                      "message, place); token soups, token-tree mutations and large grammars given to the macro; every planted fault is non-trivial, a hostile text is when it is rejected",
                      n, chk.n.get("faults_planted", 0) + chk.n.get("hostile_syntax", 0) + chk.n.get("hostile_rejected", 0))


# ---------------------------------------------------------------- C15

def c15():
    chk = Check("C15")
    mon, peg = build_mon(), build_peg(with_bin=True)
    jobs = []
    for profile, q, t in (("syntax", 20, 320), ("compact", 20, 320)):
        # every fourth program: the grammar's tokens come out of a macro_rules macro
        jobs += [Job(profile, "suppress", b, 30, 90, wrap=b % 4 == 3) for b in range(t if THOROUGH else q)]
    engine.run_jobs(chk, mon, peg, jobs)
    d = os.path.join(chk.dir, "t")

    def same(pb):
        profile, b = pb
        bd = os.path.join(d, "%s%d" % pb)
        for group in macro.text_batch(mon, profile, SEED, 9000 + b, 30, bd):
            vs = [run_bin(peg, p) for p in group]
            chk.add("spellings", len(vs))
            first = next((v for v in vs if v.kind == "ok"), None)
            for p, v in zip(group, vs):
                if v.kind in ("hang", "panic"):
                    chk.add("macro_gave_no_answer")
                elif first and (v.kind != "ok" or v.r.out != first.r.out):
                    chk.violation("two spellings of one grammar give different parsers (%s, %s)" % (v.kind, v.msgs[:1]),
                                  {"a.rustpeg": open(group[vs.index(first)]).read(), "b.rustpeg": open(p).read()})
        shutil.rmtree(bd, ignore_errors=True)
    pmap(same, [(p, b) for p in LANG_PROFILES for b in range(2 if not THOROUGH else 25)])
    return chk.finish("grammars printed with random white space, comments, redundant parentheses, trailing commas and semicolons, or with as few parentheses as the documented "
                      "precedences allow, judged against the reference model of the tree they were printed from; and four spellings of a grammar must expand to the same code",
                      chk.n.get("cases", 0) + chk.n.get("spellings", 0), chk.n.get("distinct_nontrivial", 0) + chk.n.get("spellings", 0))


# ---------------------------------------------------------------- C16

def scratch_copy(dst):
    shutil.rmtree(dst, ignore_errors=True)
    os.makedirs(dst)
    for x in ("Cargo.toml", "Cargo.lock", "src", "peg-macros", "peg-runtime"):
        s = os.path.join(REPO, x)
        if os.path.isdir(s):
            shutil.copytree(s, os.path.join(dst, x), ignore=shutil.ignore_patterns("target"))
        elif os.path.exists(s):
            shutil.copy(s, os.path.join(dst, x))


def c16():
    chk = Check("C16")
    mon, peg = build_mon(), build_peg(with_bin=True)
    key = repo_hash()
    stage = os.path.join(BUILD, "stage2-" + key)
    src = os.path.join(stage, "src")
    for old in os.listdir(BUILD):
        if old.startswith("stage2-") and old != os.path.basename(stage):
            shutil.rmtree(os.path.join(BUILD, old), ignore_errors=True)
    definition = os.path.join(REPO, "peg-macros", "grammar.rustpeg")

    def broken(what, files):
        chk.violation(what, files)
        return chk.finish("-", 1, 1)
    g1 = run_bin(peg, definition, timeout=60)
    if g1.kind != "ok":
        return broken("the macro's parser does not accept its own definition: %s %s" % (g1.kind, g1.msgs[:2]), {"grammar.rustpeg": open(definition).read()})
    scratch_copy(src)
    write(os.path.join(src, "peg-macros", "grammar.rs"), g1.r.out)
    x = run(["cargo", "build", "-p", "peg-macros", "--manifest-path", os.path.join(src, "Cargo.toml"), "--offline",
             "--target-dir", os.path.join(stage, "target")], timeout=600, env=base_env(), cwd=src)
    if x.rc != 0:
        y = run(["cargo", "build", "-p", "peg-macros", "--manifest-path", os.path.join(REPO, "Cargo.toml"), "--offline", "--locked",
                 "--target-dir", peg.dir.rsplit("/", 1)[0]], timeout=600, env=base_env(), cwd="/tmp")
        if y.rc != 0:
            raise Inconclusive("cannot build: " + y.err[-2000:])
        return broken("the parser generated from the definition does not compile in the macro's place", {"grammar.rs": g1.r.out, "cargo.txt": x.err[-8000:]})
    two = Peg(os.path.join(stage, "target"), "debug", STABLE)
    g2 = run_bin(two, definition, timeout=60)
    chk.add("bootstraps")
    if g2.kind != "ok" or g2.r.out != g1.r.out:
        chk.violation("regenerating the parser is not a fixed point (%s)" % g2.kind, {"first.rs": g1.r.out, "second.rs": g2.r.out, "said.txt": str(g2.msgs)})

    rng = random.Random(SEED * 31 + 7)
    d = os.path.join(chk.dir, "t")
    corpus = []
    per = 25 if not THOROUGH else 200
    for p in LANG_PROFILES + ["syntax", "compact"]:
        for g in macro.text_batch(mon, p, SEED, 9500, per, os.path.join(d, p)):
            corpus.append(open(g[0]).read())
            corpus.append(open(g[2]).read())
    for path, _ in macro.raw_batch(mon, SEED, 9500, 300 if not THOROUGH else 5000, os.path.join(d, "raw")):
        corpus.append(open(path).read())
    corpus += own_texts()
    rich = own_texts() * 6
    plain = list(corpus)
    for i in range(3500 if not THOROUGH else 60000):
        b = rng.choice(rich if rng.random() < 0.6 else plain)
        other = [x.text for x in macro.lex(rng.choice(rich)) if x.text not in "()[]{}"]
        corpus.append(macro.mutate(b, rng, other))
    # headers and types, where the generated grammars are poor
    for i in range(1500 if not THOROUGH else 20000):
        corpus.append(header(rng))
    shutil.rmtree(d, ignore_errors=True)
    cd = os.path.join(chk.dir, "c")
    os.makedirs(cd)
    seen = set()

    def cmp(it):
        i, t = it
        path = os.path.join(cd, "%d.rustpeg" % i)
        write(path, t)
        a, b = run_bin(peg, path), run_bin(two, path)
        os.remove(path)
        if "hang" in (a.kind, b.kind):
            write(path, t)
            a, b = slow_again(peg, path), slow_again(two, path)
            os.remove(path)
        chk.add("compared_" + a.kind)
        if a.kind == "syntax":
            seen.add(a.msgs[0])
        if a.kind != b.kind or (a.kind not in ("panic", "hang") and (a.r.out != b.r.out or a.msgs != b.msgs)):
            chk.violation("the macro's parser and the one generated from its definition differ: %s %s / %s %s" % (a.kind, a.msgs[:1], b.kind, b.msgs[:1]),
                          {"grammar.rustpeg": t, "checked_in.txt": (a.r.out or a.r.err)[:20000], "generated.txt": (b.r.out or b.r.err)[:20000]})
    pmap(cmp, list(enumerate(corpus)))
    chk.cov["distinct_syntax_errors"] = len(seen)
    chk.samples += [{"text": t[:200]} for t in rng.sample(corpus, 3)]
    n = sum(v for k, v in chk.n.items() if k.startswith("compared_"))
    return chk.finish("texts (generated grammars, the repository's own grammars, documentation and feature programs, single-rule grammars with random headers and types, and token-tree "
                      "mutations of them) given to the parser in the macro and to the one generated from its definition: same acceptance, same expansion, same error; "
                      "a text counts once, all are non-trivial", n, n)


def own_texts():
    """grammars with rich notation: the definition itself, feature programs"""
    out = [open(os.path.join(REPO, "peg-macros", "grammar.rustpeg")).read()]
    rng = random.Random(3)
    progs = [features.program([(i, f)], rng) for i, f in enumerate(features.STR)] + [t for _, t in features.WHOLE]
    for p in progs:
        at = 0
        while True:
            i = p.find("peg::parser!{", at)
            if i < 0:
                break
            j = i + len("peg::parser!{")
            try:
                ts = macro.lex(p[j - 1:])
            except (ValueError, IndexError):
                at = j
                continue
            t = p[j:j - 1 + ts[ts[0].close].a]
            if "$name" not in t:
                out.append(t)
            at = j
    return out


IDENTS = ["a", "b0", "T", "Foo", "str", "u8", "self", "Self", "crate", "r#fn", "_", "__", "___", "_x", "rule", "pub", "where", "type", "use", "for", "dyn", "grammar", "as", "in"]


def ty(rng, d=3):
    r = rng.random
    p = lambda: path_ty(rng, d - 1)
    if d <= 0:
        return rng.choice(IDENTS[:8])
    k = rng.randrange(16)
    if k < 5:
        return p()
    return ["[%s]" % ty(rng, d - 1), "[u8; 3]", "&" + ty(rng, d - 1), "&'a " + ty(rng, d - 1), "&mut " + ty(rng, d - 1), "&'a mut " + ty(rng, d - 1),
            "dyn " + bounds(rng, d - 1), "impl " + bounds(rng, d - 1), "(%s)" % ", ".join(ty(rng, d - 1) for _ in range(rng.randrange(4))), "(%s,)" % ty(rng, d - 1),
            "<%s as %s>::%s" % (ty(rng, d - 1), p(), rng.choice(IDENTS)), "<%s>::X" % ty(rng, d - 1)][k % 12 if k >= 5 else 0]


def path_ty(rng, d):
    segs = []
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        s = rng.choice(IDENTS[:12])
        k = rng.randrange(8) if d > 0 else 9
        if k == 0:
            s += "<%s>" % generic_args(rng, d)
        elif k == 1:
            s += "::<%s>" % generic_args(rng, d)
        elif k == 2:
            s += "(%s)" % ty(rng, d - 1) + (" -> " + ty(rng, d - 1) if rng.random() < 0.7 else "")
        segs.append(s)
    return rng.choice(["", "", "", "::"]) + "::".join(segs)


def generic_args(rng, d):
    a = [rng.choice(["'a", "'static", "{ 1 + 2 }", "3", ty(rng, d - 1), ty(rng, d - 1), ty(rng, d - 1)]) for _ in range(rng.randrange(1, 4))]
    return ", ".join(a) + rng.choice(["", "", ","])


def bounds(rng, d):
    b = lambda: rng.choice(["'a", "'static", path_ty(rng, d), "?Sized", "for<'b> " + path_ty(rng, d), "(%s)" % path_ty(rng, d), "(?Sized)", "(for<'b> %s)" % path_ty(rng, d)])
    return " + ".join(b() for _ in range(rng.choice([1, 1, 2, 3])))


def header(rng):
    """a grammar of one rule whose header, uses and attributes are the point"""
    gp = lambda: rng.choice(["'a", "'a: 'b + 'c", "T", "T: " + bounds(rng, 2), "A, B", "T: 'static, 'a", "T,"])
    where = lambda: rng.choice(["", "", "", "where T: %s" % bounds(rng, 2), "where 'a: 'b + 'c, %s: %s," % (ty(rng, 2), bounds(rng, 2)), "where for<'c> %s: %s" % (ty(rng, 1), bounds(rng, 1)), "where", "where T: A, U: B"])
    param = lambda: "%s: %s" % (rng.choice(IDENTS), rng.choice([ty(rng), ty(rng), "rule<%s>" % ty(rng, 2)]))
    params = lambda: ", ".join(param() for _ in range(rng.choice([0, 0, 1, 2]))) + rng.choice(["", "", "", ","])
    attrs = lambda: " ".join(rng.sample(["#[cache]", "#[cache_left_rec]", "#[no_eof]", "/// doc\n", "#[doc = \"x\"]", "#[inline]", "//! x\n"], rng.choice([0, 0, 1, 1, 2])))
    vis = lambda: rng.choice(["", "", "pub", "pub(crate)", "pub(in a::b)", "pub ()"])
    use = lambda: rng.choice(["use %s;" % rng.choice(["a", "a::b", "crate::a", "a::*", "a::{b}", "a::{b, c as d,}", "a as b", "::a", "a::{b::c}", "self::x", "super::x::*", "a::{}", "a::{*}", "{a}"]), "", ""])
    expr = lambda: rng.choice(['"a"', "x()", "_", "__ x:y::<u8>(1, <\"a\">)", "[_]* { 1 }", "precedence!{ a:(@) b:@ {1} -- c() {2} }", "(@)", "$x()", "&!\"a\"", "##m(1)", "#{|a, b| c}", "expected!(\"x\")",
                                 "position!()", "\"a\" ** <1,{2}> \",\"", "\"a\"*<,>", "\"a\"*<{x}> / ", "a:b:c()", "\"a\"?*", "x(a, <b()>, |x| y)", "x(,)", "x(<a>)", "x::y()", "''", "'a'", "1", "1.0", "-1"])
    name = rng.choice(IDENTS)
    return "%s %s grammar %s%s(%s) for %s { %s\n%s %s rule %s%s%s%s %s = %s %s %s }" % (
        attrs() if rng.random() < 0.3 else "", vis(), rng.choice(IDENTS), rng.choice(["", "", "<'a>", "<'a, 'b,>", "<T>", "<>"]), params(), ty(rng, 2), use(), attrs(), vis(), name,
        rng.choice(["", "", "<%s>" % gp()]), rng.choice(["(%s)" % params(), "(%s)" % params(), ""]),
        rng.choice(["", "-> " + ty(rng), "-> " + ty(rng)]), where(), expr(), rng.choice(["", ";", ";;"]), use() if rng.random() < 0.1 else "")


GOOD = ["a", "b0", "T", "Foo", "String", "u8", "std", "r#fn", "_x", "grammar", "cache", "rules", "étape"]


def valid_header(rng):
    """a grammar whose headers, types, uses and attributes are legal and may be anything the notation admits"""
    global IDENTS
    old, IDENTS = IDENTS, GOOD
    try:
        t = lambda d=3: ty(rng, d)
        opt = lambda s: s if rng.random() < 0.35 else ""
        life = lambda: rng.choice(["'a", "'b", "'static", "'long_name"])
        lb = lambda: life() + opt(": " + " + ".join(life() for _ in range(rng.choice([1, 1, 2]))))
        gp = lambda: ", ".join(rng.choice([lb(), rng.choice(GOOD) + opt(": " + bounds(rng, 2))]) for _ in range(rng.choice([1, 1, 2, 3]))) + opt(",")
        wh = lambda: "where " + ", ".join(rng.choice([lb(), "%s%s: %s" % (opt("for<'c> "), t(2), bounds(rng, 2))]) for _ in range(rng.choice([1, 1, 2, 3]))) + opt(",")
        docs = lambda: "".join(rng.choice(["/// a doc { comment\n", "/** block */ ", "#[doc = \"x\"] "]) for _ in range(rng.choice([0, 0, 0, 1, 2])))
        use = lambda: rng.choice(["use a;", "use a::b;", "use crate::a;", "use a::*;", "use a::b::{b};", "use a::{b, c as d,};", "use a as b;", "use self::x;", "use super::x::*;", "use crate::a::b::{c, d};", "use a::r#fn as r#in;"])
        lit = lambda: rng.choice(['"a"', "['b']", "[_]", '"x" { 1 }'])
        names = iter(rng.sample(["r%d" % i for i in range(30)], 12))
        items = []
        for _ in range(rng.choice([1, 2, 3])):
            if rng.random() < 0.3:
                items.append(use())
            pub = rng.choice(["", "", "pub ", "pub(crate) ", "pub(super) ", "pub(in crate::a) ", "pub (self) "])
            cache = rng.choice(["", "", "", "#[cache] ", "#[cache_left_rec] "])
            noeof = "#[no_eof] " if pub and rng.random() < 0.2 else ""
            gen = "" if cache or rng.random() < 0.6 else "<%s>" % gp()
            ps = "" if cache else ", ".join("p%d: %s" % (i, t() if pub or rng.random() < 0.6 else "rule<%s>" % t(2)) for i in range(rng.choice([0, 0, 1, 2])))
            if ps and rng.random() < 0.3:
                ps += ","
            ret = opt("-> " + t())
            items.append(docs() + cache + noeof + pub + "rule " + next(names) + gen + "(" + ps + ") " + ret + " " + opt(wh()) + " = " + lit() + rng.choice(["", "", ";"]))
        if rng.random() < 0.3:
            items.append("rule %s%s = [' ']*" % (rng.choice(["_", "__", "___"]), rng.choice(["", "()"])))
        head = docs() + rng.choice(["", "pub ", "pub(crate) "]) + "grammar " + rng.choice(GOOD) + rng.choice(["", "", "<'a>", "<'a, 'b,>"])
        head += "(" + ", ".join("q%d: %s" % (i, t()) for i in range(rng.choice([0, 0, 1, 2]))) + opt("") + ") for " + t(2)
        return head + " {\n" + "\n".join(items) + "\n}\n"
    finally:
        IDENTS = old
