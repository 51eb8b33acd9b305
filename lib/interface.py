"""C24: what a grammar's module exports, as consumers and rustdoc see it."""
import random
from common import *
import engine

HEAD = """#![allow(warnings)]
#[derive(Clone, Copy, Debug, PartialEq)] pub enum Tk { A, B }
pub struct Own(pub Vec<Tk>);
#[derive(Clone, Copy, Debug, PartialEq, Eq)] pub struct At(pub usize);
impl std::fmt::Display for At { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "at {}", self.0) } }
impl peg::Parse for Own { type PositionRepr = At; fn start<'i>(&'i self) -> usize { 0 } fn is_eof<'i>(&'i self, p: usize) -> bool { p >= self.0.len() } fn position_repr<'i>(&'i self, p: usize) -> At { At(p) } }
impl<'i> peg::ParseElem<'i> for Own { type Element = Tk; fn parse_elem(&'i self, p: usize) -> peg::RuleResult<Tk> { match self.0.get(p) { Some(t) => peg::RuleResult::Matched(p + 1, *t), None => peg::RuleResult::Failed } } }
impl<'i> peg::ParseSlice<'i> for Own { type Slice = &'i [Tk]; fn parse_slice(&'i self, a: usize, b: usize) -> &'i [Tk] { &self.0[a..b] } }
"""

# input type in the grammar, in a signature, a value, type of its slices, position type
INPUTS = [
    ("str", "&'i str", '"input"', "&'i str", "api::peg::str::LineCol"),
    ("[u8]", "&'i [u8]", "b\"input\"", "&'i [u8]", "usize"),
    ("[Tk]", "&'i [Tk]", "&[Tk::A, Tk::B]", "&'i [Tk]", "usize"),
    ("Own", "&'i Own", "&Own(vec![Tk::B])", "&'i [Tk]", "At"),
]
WORDS = ["Parses", "a", "`list`", "of *items*", "\\\\", "é", "\"quoted\"", "{braces}", "<T>", "#not a heading", "'x'", "//", "see [`Vec`]", "100%"]


def value(rng, n):
    t = rng.choice(["u8", "u8", "u16", "i64", "&'static str", "char", "bool", "usize", "Option<u8>", "(u8, char)", "[u8; 2]", "fn(u8) -> u8"])
    n = n % 90 + 1
    v = {"u8": "%du8" % n, "u16": "%du16" % (n + 300), "i64": "-%di64" % n, "&'static str": "\"s%d\"" % n, "char": "'%s'" % chr(97 + n % 26),
         "bool": "true" if n % 2 else "false", "usize": "%dusize" % (n + 1000), "Option<u8>": "Some(%du8)" % n, "(u8, char)": "(%du8, 'q')" % n,
         "[u8; 2]": "[%d, %d]" % (n, n + 1), "fn(u8) -> u8": "u8::reverse_bits" if n % 2 else "u8::swap_bytes"}[t]
    return t, v


VIS = ["", "pub", "pub", "pub(crate)", "pub(super)", "pub(in crate::outer)"]
# where each visibility reaches, from a grammar in outer::inner and from a rule in that grammar
REACH_G = {"": 0, "pub(super)": 1, "pub(in crate::outer)": 1, "pub(crate)": 2, "pub": 3}
REACH_R = {"": -1, "pub(super)": 0, "pub(in crate::outer)": 1, "pub(crate)": 2, "pub": 3, "pub(self)": -1, "pub(in crate::outer::inner)": 0}
PATHS = {0: "", 1: "inner::", 2: "outer::inner::", 3: "api::outer::inner::"}


def docs(rng):
    if rng.random() < 0.45:
        return [], None
    ls = [" ".join(rng.choice(WORDS) for _ in range(rng.randint(1, 5))) for _ in range(rng.randint(1, 3))]
    src = []
    for l in ls:
        if rng.random() < 0.75:
            src.append("/// " + l)
        else:
            src.append("#[doc = %s]" % json.dumps(" " + l, ensure_ascii=False))
    return src, "\n".join(ls)


class G:
    pass


def grammar(rng, k):
    g = G()
    g.name = "g%d" % k if rng.random() < 0.8 else "r#%s" % ["fn", "type", "match", "loop", "mod"][k % 5]
    g.vis = rng.choice(VIS)
    g.inp = rng.choice(INPUTS)
    g.docsrc, g.doc = docs(rng)
    g.life = rng.random() < 0.3
    n = 0
    g.args = []
    for a in range(rng.choice([0, 0, 1, 2, 3])):
        if g.life and a == 0:
            g.args.append(("ctx", "&'a str", '"ctx%d"' % k))
        else:
            n += 1
            t, v = value(rng, k * 7 + n)
            g.args.append((rng.choice(["a%d", "arg_%d", "_u%d"]) % a, t, v))
    g.life = any(t == "&'a str" for _, t, _ in g.args)
    g.rules = []
    for i in range(rng.randint(2, 6)):
        r = G()
        r.name = rng.choice(["r%d", "rule_%d", "Upper%d", "_r%d", "__%d", "new%d"]) % i if rng.random() < 0.9 else "r#" + ["while", "as", "impl", "use", "enum", "struct"][i]
        r.vis = rng.choice(VIS + ["pub(self)", "pub(in crate::outer::inner)"])
        r.docsrc, r.doc = docs(rng)
        r.no_eof = r.vis != "" and rng.random() < 0.2
        r.cache = False
        r.params, r.generic, r.where = [], [], ""
        for a in range(rng.choice([0, 0, 0, 1, 2, 3])):
            n += 1
            t, v = value(rng, k * 7 + n)
            r.params.append(("p%d" % a, t, v, t))
        if r.params and rng.random() < 0.3:
            # the first parameter's type becomes a type parameter
            p, t, v, _ = r.params[0]
            b = rng.choice(["", ": Copy", ": Copy + Sized", ": ::core::marker::Copy"])
            r.generic.append("T" + b)
            if b == "" or rng.random() < 0.4:
                r.where = " where T: Copy"
            r.params[0] = (p, "T", v, t)
        elif rng.random() < 0.15:
            r.generic.append("'b")
            r.params.append(("pb", "&'b str", '"bb"', "&'b str"))
        r.cache = not r.params and rng.random() < 0.25
        # what it returns: the slice, then some arguments in a random order
        pool = [(a, t, v, t) for a, t, v in g.args] + r.params
        rng.shuffle(pool)
        r.ret = pool[:rng.choice([0, 1, 2, 3, 4])]
        r.bare = not r.ret and rng.random() < 0.5
        r.peg = []
        if r.vis == "" and rng.random() < 0.3:
            r.peg = ["x: rule<()>"]
            r.cache = False
        g.rules.append(r)
    return g


def tup(ts):
    return "(%s)" % "".join(t + ", " for t in ts)


def rule_src(g, r):
    o = ["    " + d for d in r.docsrc]
    if r.cache:
        o.append("    #[cache]")
    if r.no_eof:
        o.append("    #[no_eof]")
    sl = g.inp[3].replace("'i", "'input")
    ret = "" if r.bare else " -> " + tup([sl] + [t for _, t, _, _ in r.ret])
    body = "[_]*" if r.bare else "s:$([_]*) { %s }" % tup(["s"] + [n for n, _, _, _ in r.ret])
    o.append("    %s rule %s%s(%s)%s%s = %s" % (
        r.vis, r.name, "<%s>" % ", ".join(r.generic) if r.generic else "",
        ", ".join(["%s: %s" % (n, t) for n, t, _, _ in r.params] + r.peg), ret, r.where, body))
    return "\n".join(o)


def grammar_src(g):
    o = ["  peg::parser! {"] + ["  " + d for d in g.docsrc]
    o.append("  %s grammar %s%s(%s) for %s {" % (g.vis, g.name, "<'a>" if g.life else "", ", ".join("%s: %s" % (n, t) for n, t, _ in g.args), g.inp[0]))
    o.append("    use std::collections::BTreeMap as Unused; use super::Tk as Tk2;")
    o += [rule_src(g, r) for r in g.rules]
    return "\n".join(o + ["  }", "  }"])


def use(g, r, site, tag):
    """Bind the function to the exact type it should have, call it, look at what comes back."""
    lts = ["'i"] + (["'a"] if g.life else []) + (["'b"] if "'b" in r.generic else [])
    sig = "for<%s> fn(%s) -> ::core::result::Result<%s, api::peg::error::ParseError<%s>>" % (
        ", ".join(lts), ", ".join([g.inp[1]] + [t for _, t, _ in g.args] + [c for _, _, _, c in r.params]),
        "()" if r.bare else tup([g.inp[3]] + [c for _, _, _, c in r.ret]), g.inp[4])
    path = PATHS[site] + g.name + "::" + r.name
    want = "()" if r.bare else tup(["v.0"] + [v for _, _, v, _ in r.ret])
    s = "{ let i = %s; let f: %s = %s; let v = f(%s).unwrap(); " % (
        g.inp[2], sig, path, ", ".join(["i"] + [v for _, _, v in g.args] + [v for _, _, v, _ in r.params]))
    if r.bare:
        s += "assert_eq!(v, ());"
    else:
        s += "assert_eq!(v.0.len(), %s);" % ("i.0.len()" if g.inp[0] == "Own" else "i.len()")
        for i, (_, t, v, c) in enumerate(r.ret):
            if c == "fn(u8) -> u8":
                s += "assert_eq!(v.%d(6), (%s)(6), \"%s\");" % (i + 1, v, path) if False else "assert_eq!((v.%d)(6), (%s)(6));" % (i + 1, v)
            else:
                s += "assert_eq!(v.%d, %s);" % (i + 1, v)
    return s + " }"


def program(rng, n):
    gs, names = [], set()
    while len(gs) < n:
        g = grammar(rng, len(gs))
        if g.name not in names:
            names.add(g.name)
            gs.append(g)
    pos = {0: [], 1: [], 2: [], 3: []}
    neg = {0: [], 1: [], 2: [], 3: []}
    for g in gs:
        for r in g.rules:
            for site in range(4):
                ok = site <= min(REACH_G[g.vis], REACH_R[r.vis])
                if ok:
                    pos[site].append((g, r))
                else:
                    neg[site].append((g, r))
    return gs, pos, neg


def lib_src(gs, inner, outer, root):
    return (HEAD + "pub extern crate peg;\npub mod outer {\n use super::*;\n pub mod inner {\n use super::*;\n" + "\n".join(grammar_src(g) for g in gs)
            + "\n" + inner + "\n }\n" + outer + "\n}\n" + root + "\n")


def fns(prefix, bodies):
    return "pub fn %s() {\n%s\n}" % (prefix, "\n".join(bodies))


def c24():
    chk = Check("C24")
    peg, nightly = build_peg(), build_peg(toolchain=NIGHTLY)
    n = 1500 if THOROUGH else 96

    def one(k):
        rng = random.Random(SEED * 1009 + k)
        gs, pos, neg = program(rng, 12)
        d = os.path.join(chk.dir, "p%d" % k)
        os.makedirs(d, exist_ok=True)
        ext = peg.ext
        # what must work
        alias = " use crate as api;"
        src = lib_src(gs, alias + fns("use_inner", [use(g, r, 0, k) for g, r in pos[0]]), alias + fns("use_outer", [use(g, r, 1, k) for g, r in pos[1]]),
                      alias.replace("use crate as api;", "extern crate self as api;") + fns("use_root", [use(g, r, 2, k) for g, r in pos[2]]))
        lib = os.path.join(d, "libapi.rlib")
        open(os.path.join(d, "api.rs"), "w").write(src)
        x = rustc(os.path.join(d, "api.rs"), lib, ext, peg.toolchain, ("--crate-type", "rlib"), crate_name="api")
        if x.rc != 0:
            if x.rc == 1:
                chk.violation("functions of declared type and visibility cannot be used as declared inside their crate: %s" % engine.first_error(x.err),
                              {"api.rs": src, "rustc.txt": x.err[-8000:]})
            return
        main = "#![allow(warnings)]\nuse api::*;\nfn main() { api::outer::inner::use_inner(); api::outer::use_outer(); api::use_root(); use_other(); }\n" + \
            fns("use_other", [use(g, r, 3, k) for g, r in pos[3]])
        open(os.path.join(d, "main.rs"), "w").write(main)
        x = rustc(os.path.join(d, "main.rs"), os.path.join(d, "main"), ["--extern", "api=" + lib] + ext, peg.toolchain)
        if x.rc != 0:
            if x.rc == 1:
                chk.violation("functions of declared type and visibility cannot be used as declared from another crate: %s" % engine.first_error(x.err),
                              {"api.rs": src, "main.rs": main, "rustc.txt": x.err[-8000:]})
            return
        y = run([os.path.join(d, "main")], timeout=60)
        npos = sum(map(len, pos.values()))
        if y.rc != 0:
            chk.violation("an exported function does not take its arguments in the declared order: %s" % y.err[-600:], {"api.rs": src, "main.rs": main})
        chk.add("typed_calls", npos)
        # what must not
        def neg_lines(site):
            o = []
            for g, r in neg[site]:
                o.append((g, r, "pub fn n%d_%d() { let _ = %s%s::%s; }" % (site, len(o), PATHS[site], g.name, r.name)))
                if not r.name.startswith("r#"):
                    o.append((g, r, "pub fn n%d_%d() { let _ = %s%s::__parse_%s; }" % (site, len(o), PATHS[site], g.name, r.name)))
            return o
        parts = [neg_lines(s) for s in range(4)]
        src2 = lib_src(gs, *["\n".join(l for _, _, l in parts[s]) for s in range(3)])
        other = "#![allow(warnings)]\n" + "\n".join(l for _, _, l in parts[3]) + "\nfn main() {}\n"
        for fname, text, ls, ct, e in (("neg.rs", src2, parts[0] + parts[1] + parts[2], ("--crate-type", "rlib"), ext),
                                       ("negother.rs", other, parts[3], (), ["--extern", "api=" + lib] + ext)):
            f = os.path.join(d, fname)
            open(f, "w").write(text)
            x = rustc(f, f + ".out", e, peg.toolchain, ct, json_errors=True, crate_name="neg")
            bad = set()
            for l in x.err.splitlines():
                try:
                    m = json.loads(l)
                except ValueError:
                    continue
                if m.get("level") == "error" and (m.get("code") or {}).get("code") in ("E0603", "E0425", "E0433", "E0423", "E0616", "E0624", "E0432"):
                    bad |= {s["line_start"] for s in m["spans"] if s["is_primary"]}
            lines = text.split("\n")
            for g, r, l in ls:
                chk.add("refused_uses", 1)
                if lines.index(l) + 1 not in bad:
                    chk.violation("`%s` is accepted although the grammar is declared `%s grammar` and the rule `%s rule`" % (l, g.vis or "(private)", r.vis or "(private)"),
                                  {"program.rs": text, "api.rs": src})
        # what rustdoc sees
        lib2 = lib_src(gs, "", "", "")
        f = os.path.join(d, "doc.rs")
        open(f, "w").write(lib2)
        x = run(["rustdoc", "--edition", "2021", "--crate-name", "api", "-Zunstable-options", "--output-format", "json", "--document-private-items", f, "-o", d,
                 "--cap-lints", "allow"] + nightly.ext, env=base_env(NIGHTLY), timeout=200)
        jf = os.path.join(d, "api.json")
        if x.rc != 0 or not os.path.exists(jf):
            raise Inconclusive("rustdoc failed: " + x.err[-1500:])
        judge_doc(chk, json.load(open(jf)), gs, lib2)
        chk.add("programs")
        if k == 0:
            chk.samples.append({"grammar": grammar_src(gs[0])[:900]})
        shutil.rmtree(d, ignore_errors=True)

    t0 = time.time()
    errs = []

    def guarded(k):
        if time.time() - t0 > (2000 if THOROUGH else 200) or len(chk.violations) > 12:
            chk.add("programs_not_started")
            return
        try:
            one(k)
        except Inconclusive as e:
            errs.append(e)
    pmap(guarded, range(n))
    if errs and not chk.violations:
        raise errs[0]
    c = chk.n
    return chk.finish("random grammars with random visibilities, arguments, parameters, generics and documentation; one evaluation is one use that must type-check and "
                      "run with the exact declared function type, one use that rustc must refuse, or one item of the module as rustdoc's JSON shows it; each use is distinct",
                      c.get("typed_calls", 0) + c.get("refused_uses", 0) + c.get("items_seen", 0), c.get("typed_calls", 0) + c.get("refused_uses", 0) + c.get("items_seen", 0))


def vis_of(v):
    return "public" if v == "public" else "" if v == "crate" else v["restricted"]["path"] if isinstance(v, dict) else v


def want_vis(vis, me, above):
    """rustdoc's rendering of a visibility on an item of module `me`, which is in module `above`"""
    return {"": me, "pub": "public", "pub(crate)": "", "pub(self)": me, "pub(super)": above, "pub(in crate::outer)": "::outer",
            "pub(in crate::outer::inner)": "::outer::inner"}[vis]


def judge_doc(chk, j, gs, src):
    idx = j["index"]

    def kids(item):
        return [idx[str(i)] for i in item["inner"]["module"]["items"] if str(i) in idx]
    root = idx[str(j["root"])]
    outer = [i for i in kids(root) if i["name"] == "outer"][0]
    inner = [i for i in kids(outer) if i["name"] == "inner"][0]
    mods = {i["name"]: i for i in kids(inner) if "module" in i["inner"]}

    def bad(what):
        chk.violation("rustdoc: " + what, {"program.rs": src})
    plain = lambda n: n[2:] if n.startswith("r#") else n
    if {plain(m) for m in mods} != {plain(g.name) for g in gs}:
        bad("modules %s for grammars %s" % (sorted(mods), sorted(g.name for g in gs)))
        return
    for g in gs:
        m = [x for k, x in mods.items() if plain(k) == plain(g.name)][0]
        chk.add("items_seen")
        here = "::outer::inner"
        me = here + "::" + m["name"]
        if vis_of(m["visibility"]) != want_vis(g.vis, here, "::outer"):
            bad("module %s declared `%s` has visibility %s" % (g.name, g.vis, m["visibility"]))
        if m["docs"] != g.doc:
            bad("module %s is documented %r instead of %r" % (g.name, m["docs"], g.doc))
        exported = {plain(r.name): r for r in g.rules if r.vis}
        seen = set()
        for it in kids(m):
            if "use" in it["inner"]:
                if vis_of(it["visibility"]) != me:
                    bad("module %s re-exports something" % g.name)
                continue
            name = plain(it["name"] or "")
            if "function" in it["inner"] and name in exported:
                r = exported[name]
                seen.add(name)
                chk.add("items_seen")
                chk.add("documented_items", 1 if r.doc else 0)
                if vis_of(it["visibility"]) != want_vis(r.vis, me, here):
                    bad("function %s::%s declared `%s` has visibility %s" % (g.name, r.name, r.vis, it["visibility"]))
                if it["docs"] != r.doc:
                    bad("function %s::%s is documented %r instead of %r" % (g.name, r.name, it["docs"], r.doc))
                f = it["inner"]["function"]
                names = [a[0] for a in f["sig"]["inputs"]]
                want = [a for a, _, _ in g.args] + [p for p, _, _, _ in r.params]
                if len(names) != len(want) + 1:
                    bad("function %s::%s takes %s" % (g.name, r.name, names))
                params = [p["name"] for p in f["generics"]["params"]]
                wantp = [p.split(":")[0] for p in r.generic]
                if [p for p in params if p in wantp] != wantp or len([p for p in params if not p.startswith("'")]) != len([p for p in wantp if not p.startswith("'")]):
                    bad("function %s::%s has type parameters %s" % (g.name, r.name, params))
            elif vis_of(it["visibility"]) not in (me, "default"):
                bad("module %s exports %s, which no pub rule declares (visibility %s)" % (g.name, it["name"], it["visibility"]))
        if seen != set(exported):
            bad("module %s has functions %s for pub rules %s" % (g.name, sorted(seen), sorted(exported)))
