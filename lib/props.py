"""One entry per property."""
import re
from common import *
import engine
import demos
import notation
import behaviour
import interface
import hygiene
import ub
import scale
from engine import Job

RULE = ("random well-formed grammars (profile(s) {p}) compiled by the real macro; inputs sampled from each grammar's own "
        "language, mutated, and every short string over its alphabet; a case is one call of an exported rule, "
        "non-trivial when the input is not empty and the reference model needs at least 6 evaluation steps; large cases (sizes and "
        "depths up to 70000, more in the thorough tier) are judged by closed formulas and count as evaluations only")

# property -> list of (profile, judge, programs quick, programs thorough, grammars per program, inputs per entry point)
ENGINE = {
    "C01": [("recog", "recog", 24, 500, 30, 120), ("general", "recog", 16, 300, 30, 120)],
    "C02": [("value", "value", 32, 500, 30, 120), ("general", "value", 8, 200, 30, 120)],
    "C03": [("repeat", "value", 40, 700, 30, 150)],
    "C04": [("eof", "eof", 40, 600, 30, 150)],
    "C05": [("errloc", "errloc", 40, 600, 30, 150)],
    "C06": [("errset", "errset", 40, 600, 30, 150)],
    "C07": [("suppress", "suppress", 40, 600, 30, 150)],
    "C08": [("prec", "value", 40, 600, 24, 250)],
    "C09": [("cache", "cache", 24, 400, 30, 120), ("cacheticks", "cache", 16, 300, 30, 120)],
    "C10": [("leftrec", "value", 40, 600, 30, 200)],
    "C11": [("params", "value", 40, 600, 30, 120)],
    "C17": [("inputs", "inputs", 40, 600, 30, 120)],
    "C21": [("hygiene", "value", 40, 600, 30, 80)],
}


def engine_check(prop, plan, extra_cov=None):
    chk = Check(prop)
    mon, peg = build_mon(), build_peg(with_bin=(prop == "C21"))
    jobs = []
    if prop == "C21":
        names = hygiene.harvest(chk, peg)
        hygiene.publish(names)
    for (profile, judge, q, t, per, inputs) in plan:
        for b in range(t if THOROUGH else q):
            jobs.append(Job(profile, judge, b, per, inputs))
    engine.run_jobs(chk, mon, peg, jobs)
    if prop == "C21":
        traced = build_peg(features=("trace",), with_bin=True)
        hygiene.check(chk, peg, names, "default")
        hygiene.check(chk, traced, hygiene.harvest(chk, traced), "trace", set(names) | set(hygiene.ALWAYS))
        for name, b in (("default", peg), ("trace", traced)):
            behaviour.programs_under(chk, b, name, behaviour.SCOPES)
    scale.check(chk, peg)
    demos.run_demos(chk, peg)
    return chk


def run_check(prop):
    if prop in ENGINE:
        chk = engine_check(prop, ENGINE[prop])
        return chk.finish(RULE.format(p=", ".join(sorted({p[0] for p in ENGINE[prop]}))),
                          chk.n.get("cases", 0) + chk.n.get("large_cases", 0), chk.n.get("distinct_nontrivial", 0))
    if prop in OTHER:
        return OTHER[prop]()
    raise SystemExit("unknown property " + prop)


def setup():
    build_mon()
    build_peg(with_bin=True)
    return 0

_DIFF = "online monitor comparing real parsers from generated grammars with a reference PEG interpreter"
_DN = ("Runs parsers the real macro generates for random grammars on sampled, mutated and exhaustive short inputs and compares every "
       "observation with an independent reference interpreter; holds for what was explored.")
TECH = {i: (_DIFF, "exploration", _DN) for i in ENGINE}
OTHER = {"C12": notation.c12, "C13": notation.c13, "C14": notation.c14, "C15": notation.c15, "C16": notation.c16}
OTHER.update({"C18": behaviour.c18, "C19": behaviour.c19, "C20": behaviour.c20, "C22": behaviour.c22, "C23": ub.c23, "C24": interface.c24})
TECH["C18"] = ("online monitor of error positions in real parsers; direct assertions on every primitive of str, [u8] and [T]", "exploration",
               "Every primitive at every reachable position of hostile strings against its own definition, and line, column, boundary and slice of every result of random multi-byte grammars.")
TECH["C19"] = ("result monitor under repetition, reordering, nesting, injected panics and threads with delays", "exploration",
               "Each call's result alone on a fresh thread is the oracle for the same call in every other circumstance.")
TECH["C20"] = ("offline checker of recorded trace logs against the reference interpreter's evaluations", "exploration",
               "Every line printed by parsers built with the trace feature, in order, must be what the model evaluates, and attempts must pair with outcomes.")
TECH["C22"] = ("differential monitoring of the same parsers across feature builds", "exploration",
               "Everything each call returns is compared between the default, no-default-features and trace builds; feature programs, primitives and a no_std crate run in all.")
TECH["C23"] = ("AddressSanitizer, ThreadSanitizer, Miri and checked arithmetic on running parsers", "exploration",
               "Primitives, hand-written parsers of every mechanism and random grammars, single- and multi-threaded, with an instrumented standard library; results compared with a plain build.")
TECH["C24"] = ("monitor of rustc's and rustdoc's view of generated modules, and of argument values in running calls", "exploration",
               "Typed uses that must compile and return the arguments they were given, uses that must be refused, and rustdoc's JSON of every module, for random declarations.")
TECH["C12"] = ("monitor of macro verdicts against an independent well-formedness analysis, and of primitive calls per model step in running parsers", "exploration",
               "Random grammars full of loops, recursion and nullable pieces: what certainly loops must be rejected; what is accepted and runs is watched for termination.")
TECH["C13"] = ("monitor of macro and rustc verdicts on generated well-formed grammars; assertions in running feature programs", "exploration",
               "Every generator profile in several spellings plus programs combining all kinds of embedded Rust, accepted, type-checked and run.")
TECH["C14"] = ("fault injection into grammars with a monitor of rustc's diagnostics; hostile token streams watched for panics and hangs", "exploration",
               "Plants single faults whose place is known and reads message and span from rustc's JSON; token soups and mutations must always get an answer.")
TECH["C15"] = ("differential and metamorphic monitoring of parsers generated from many spellings of one grammar", "exploration",
               "Grammars printed in random layouts and with minimal or redundant parentheses behave like the tree they were printed from.")
TECH["C16"] = ("differential monitoring of the checked-in grammar parser against the one bootstrapped from its definition", "exploration",
               "Bootstraps a second compiler in a scratch copy and compares acceptance, output and error text over a large valid, mutated and random corpus.")
NA = {}
