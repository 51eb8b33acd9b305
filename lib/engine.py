"""The differential engine: batches of generated grammars compiled with the real
macro, run under the online monitor in pegmon, results collated."""
import json, os, re, shutil
from common import *


class Job:
    def __init__(self, profile, judge, batch, grammars, inputs, mode="diff", wrap=False):
        self.wrap = wrap
        self.profile, self.judge, self.batch, self.grammars, self.inputs, self.mode = profile, judge, batch, grammars, inputs, mode


def emit(mon, job, path, frm=0, count=None, skip=()):
    a = [mon.gen, "emit", job.profile, str(SEED), str(job.batch), str(frm), str(count or job.grammars), path]
    if skip:
        a.append(",".join(map(str, skip)))
    x = run(a, timeout=300)
    if x.rc != 0:
        raise Inconclusive("generator failed: " + x.err[-1000:])
    if job.wrap:
        # the grammar's tokens come out of another macro
        s = open(path).read()
        first, rest = s.split("\n", 1)
        assert first.startswith("#![") or first.startswith("//"), first
        s = first + "\n" + " macro_rules! relay { ($($t:tt)*) => { peg::parser!{ $($t)* } } } " + rest.replace("::peg::parser!", "relay!")
        open(path, "w").write(s)


def error_grammars(src, err):
    """indices of the grammars rustc's json errors point at, first error text"""
    lines = open(src).read().split("\n")
    starts = [(i + 1, int(l.split()[2])) for i, l in enumerate(lines) if l.startswith("// GRAMMAR ")]
    main = next((i + 1 for i, l in enumerate(lines) if l.startswith("// MAIN")), len(lines))
    bad, text = set(), {}
    for l in err.splitlines():
        try:
            m = json.loads(l)
        except ValueError:
            continue
        if m.get("level") != "error":
            continue
        spans = m.get("spans", [])
        todo = list(spans)
        while todo:
            s = todo.pop()
            if s.get("expansion"):
                todo.append(s["expansion"]["span"])
            if s.get("file_name") == src and s["line_start"] < main:
                g = [g for (ln, g) in starts if ln <= s["line_start"]]
                if g:
                    bad.add(g[-1])
                    text.setdefault(g[-1], m.get("rendered") or m.get("message"))
            elif s.get("file_name") == src:
                for mm in re.finditer(r"\(g(\d+)::|entries\.push\(\((\d+)", lines[s["line_start"] - 1]):
                    g = int(mm.group(1) or mm.group(2))
                    bad.add(g)
                    text.setdefault(g, m.get("rendered") or m.get("message"))
    return sorted(bad), text


def compile_job(chk, mon, peg, job, work, flags=()):
    """Returns the binary path or None. Grammars that do not compile are judged one by one."""
    src = os.path.join(work, "p.rs")
    binp = os.path.join(work, "p")
    skip = []
    for attempt in range(6):
        emit(mon, job, src, skip=skip)
        x = rustc(src, binp, mon.ext + peg.ext, peg.toolchain, flags, json_errors=True)
        if x.rc == 0:
            return binp, skip
        if x.timed_out or x.rc not in (1, 101) or "SIGKILL" in x.err:
            if attempt >= 1:
                chk.add("programs_rustc_killed")
                chk.notes.append("rustc ended with %s on batch %d: %s" % (x.rc, job.batch, x.err[-300:]))
                return None, skip
            continue
        bad, text = error_grammars(src, x.err)
        bad = [b for b in bad if b not in skip]
        if not bad:
            # cannot attribute: try every grammar alone
            bad = [g for g in range(job.grammars) if g not in skip]
            text = {}
        confirmed = []
        for g in bad[:60]:
            one = os.path.join(work, "one%d.rs" % g)
            emit(mon, job, one, frm=g, count=1)
            y = rustc(one, one[:-3] + ".bin", mon.ext + peg.ext, peg.toolchain, flags)
            if y.rc == 1 and not y.timed_out:
                confirmed.append(g)
                chk.add("grammars_not_compiling")
                if len(chk.violations) < 12:
                    chk.violation("a well-formed grammar (profile %s, batch %d, #%d) does not compile: %s"
                                  % (job.profile, job.batch, g, first_error(y.err)),
                                  {"grammar.rs": open(one).read(), "rustc.txt": y.err[-6000:]})
            if len(confirmed) >= 3 and len(chk.violations) >= 6:
                confirmed += [b for b in bad if b not in confirmed]
                break
        if not confirmed:
            chk.notes.append("batch %d failed to compile but no single grammar does: %s" % (job.batch, first_error(x.err)[:400]))
            chk.add("programs_unattributed_compile_failure")
            return None, skip
        skip += confirmed
        if len(skip) >= job.grammars:
            return None, skip
    return None, skip


def first_error(err):
    for l in err.splitlines():
        if l.startswith("{"):
            try:
                m = json.loads(l)
                if m.get("level") == "error":
                    return m["message"]
            except ValueError:
                pass
        elif l.startswith("error"):
            return l
    return err[:200]


def read_progress(p):
    try:
        return open(p + ".progress").read().strip()
    except OSError:
        return ""


def replay_text(job, v):
    return ("# replays one case of the monitor\ncd %s && python3 check.py --replay %s %d %d %s %s\n"
            % (VERIF, job.profile, SEED, job.batch,
               ":".join(str(v.get(k, 0)) for k in ("g", "rule", "call", "input_no")),
               job.judge if job.mode == "diff" else "%s %d %d" % (job.mode, job.inputs, job.grammars)))


def execute(chk, mon, peg, job, binp, work, extra=(), env=None, attempt=0):
    out = os.path.join(work, "out.jsonl")
    for f in (out, out + ".hang", out + ".progress"):
        if os.path.exists(f):
            os.remove(f)
    args = [binp, "--prop", job.judge, "--out", out, "--inputs", str(job.inputs), "--mode", job.mode] + list(extra)
    x = run(args, timeout=420, env=env, cpu=400, mem_gb=24, stdout_path=os.path.join(work, "stdout.txt"))
    recs = []
    if os.path.exists(out):
        for l in open(out, errors="replace"):
            try:
                recs.append(json.loads(l))
            except ValueError:
                pass
    died = None
    if x.rc == 88:
        try:
            died = ("hangs", open(out + ".hang").read().strip())
        except OSError:
            died = ("hangs", read_progress(out))
    elif x.rc != 0 or x.timed_out:
        died = ("hangs" if x.timed_out or x.rc in (-24, -9) else "crashes", read_progress(out))
    if died:
        how, case = died
        if x.rc == 70:
            raise Inconclusive("monitor failed: " + x.err[-2000:])
        ok = re.fullmatch(r"\d+:\d+:\d+:\d+", case or "")
        if ok:
            y = run(args + ["--only", case, "--hang", "40"], timeout=120, env=env, cpu=110, mem_gb=24,
                    stdout_path=os.path.join(work, "stdout2.txt"))
            if y.rc not in (0, 70):
                g, r, c, i = map(int, case.split(":"))
                one = os.path.join(work, "crash.rs")
                emit(mon, job, one, frm=g, count=1)
                v = dict(g=g, rule=r, call=c, input_no=i)
                chk.violation("the generated parser %s (exit %s) on case %s of profile %s batch %d, where the model needs a bounded number of steps: %s"
                              % (how, y.rc, case, job.profile, job.batch, y.err.strip()[-300:]),
                              {"grammar.rs": open(one).read(), "replay.sh": replay_text(job, v)})
                return recs
        if attempt == 0:
            return execute(chk, mon, peg, job, binp, work, extra, env, 1)
        chk.notes.append("program of batch %d ended with %s (%s), not reproduced: %s" % (job.batch, x.rc, case, x.err[-300:]))
        chk.add("programs_lost")
    return recs


def collate(chk, mon, job, work, recs):
    for r in recs:
        if r.get("type") == "stats":
            chk.merge(r["n"])
            cc = chk.cov.setdefault("constructs_in_grammars", {})
            for k, v in r.get("constructs", {}).items():
                cc[k] = cc.get(k, 0) + v
            if len(chk.samples) < 4:
                chk.samples += r.get("samples", [])[:2]
        elif r.get("type") == "finding":
            chk.add("known_finding_cases")
            chk.finding(r["kind"] if r["kind"] != "finding" else "cache-suppressed-failure",
                        r["what"] + " | input %r | rule %s" % (r["input"], r["rule_name"]))
        elif r.get("type") == "violation":
            if len(chk.violations) < 25:
                one = os.path.join(work, "viol.rs")
                emit(mon, job, one, frm=r["g"], count=1)
                chk.violation("%s: %s\n input %r to rule %s%s\n model:    %s\n observed: %s\n %s"
                              % (r["kind"], r["what"], r["input"], r["rule_name"], r["args"] if r["args"] != "[]" else "",
                                 r["model"], r["observed"], r["grammar"][:900]),
                              {"grammar.rs": open(one).read(), "case.json": json.dumps(r, indent=1), "replay.sh": replay_text(job, r)})
            else:
                chk.violations.append((r["kind"], chk.dir))


def check_log(chk, job, binp, work, env):
    """Offline: the log the program printed against the model's evaluations."""
    out = os.path.join(work, "judged.jsonl")
    log = os.path.join(work, "stdout.txt")
    chk.add("log_bytes", os.path.getsize(log))
    x = run([binp, "--mode", "tracecheck", "--inputs", str(job.inputs), "--out", out], stdin=open(log, "rb").read(), timeout=300, env=env)
    if x.rc != 0:
        raise Inconclusive("the trace checker failed: " + x.err[-1500:])
    return [json.loads(l) for l in open(out)]


def run_jobs(chk, mon, peg, jobs, flags=(), env=None, extra=(), post=None, wall=None):
    """Compile and run every job; stop starting new ones after `wall` seconds."""
    wall = wall or (150 if not THOROUGH else 2400)
    t0 = time.time()

    def one(job):
        if time.time() - t0 > wall or len(chk.violations) >= 25:
            chk.add("programs_not_started")
            return
        work = os.path.join(chk.dir, "w-%s-%d" % (job.profile, job.batch))
        os.makedirs(work, exist_ok=True)
        binp, skip = compile_job(chk, mon, peg, job, work, flags)
        chk.add("programs")
        if binp:
            recs = execute(chk, mon, peg, job, binp, work, extra, env)
            if job.mode == "trace":
                recs = [r for r in recs if r.get("type") == "violation"] + check_log(chk, job, binp, work, env)
            collate(chk, mon, job, work, recs)
            if post:
                post(chk, job, work, binp, skip, recs)
        shutil.rmtree(work, ignore_errors=True)

    errs = []

    def guarded(j):
        try:
            one(j)
        except Inconclusive as e:
            errs.append(e)

    pmap(guarded, jobs)
    if errs and not chk.violations:
        raise errs[0]
    if chk.n.get("programs", 0) and chk.n.get("programs_lost", 0) + chk.n.get("programs_rustc_killed", 0) > chk.n["programs"] // 2 and not chk.violations:
        raise Inconclusive("most programs could not be run: %s" % chk.notes[:3])
