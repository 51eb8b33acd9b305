"""Demonstrations of recorded findings: fixed programs, run every time, so that a
listed finding is reported while it is there and no longer once it is repaired."""
from common import *

# property -> [(key, program, what a rejected grammar means)]
DEMOS = {
    "C09": [("cache-suppressed-failure", "c09_cache_suppressed.rs", "broken")],
    "C21": [("grammar-argument-shadowed", "c21_garg_shadowed.rs", "defect")],
    "C12": [("left-recursion-through-argument", "c12_template_left_recursion.rs", "fine"),
            ("nullable-loop-through-argument", "c12_template_nullable_loop.rs", "fine")],
}


def run_demos(chk, peg):
    for key, prog, rejected in DEMOS.get(chk.prop, []):
        src = os.path.join(VERIF, "probes", prog)
        out = os.path.join(chk.dir, prog[:-3])
        x = rustc(src, out, peg.ext, peg.toolchain)
        chk.add("finding_demos")
        if x.rc != 0:
            if rejected == "defect":
                chk.finding(key, "%s does not compile: %s" % (prog, x.err[:400]))
            elif rejected == "broken":
                chk.violation("demonstration %s does not compile" % prog, {"program.rs": open(src).read(), "rustc.txt": x.err})
            continue
        y = run([out], timeout=10, cpu=10, mem_gb=4)
        if y.rc != 0 or y.timed_out:
            chk.finding(key, "%s: exit %s%s" % (prog, y.rc, " (time limit)" if y.timed_out else ""))
        elif y.out.startswith("DEFECT"):
            chk.finding(key, y.out.strip())
