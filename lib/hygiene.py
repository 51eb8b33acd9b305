"""C21: every name that the expansion of a grammar mentions, given to everything a grammar can name,
and used from within every construct."""
import random, re
from common import *
import engine

KEYWORDS = set("as async await break const continue crate dyn else enum extern false fn for if impl in let loop match mod move mut pub ref return self Self "
               "static struct super trait true type union unsafe use where while try abstract become box do final macro override priv typeof unsized virtual yield "
               "usize isize u8 u16 u32 u64 u128 i8 i16 i32 i64 i128 f32 f64 bool char str _".split())
# what the generator's programs themselves use
OWN = set("r main entries String Vec Box Copy Clone Drop Send Sync".split())
ALWAYS = "str_start err_state infix_result lpos min_prec prefix_atom eloc epos repeat_pos level_code __str_start __quiet_res __loc __entry __epos pos input state res start str_start expected e loc entry min_prec lpos err_state infix_result value result next end new val __pos __input __state __err_state".split()


def harvest(chk, peg):
    """The names that the expansion of a grammar mentions."""
    x = run([peg.bin, os.path.join(VERIF, "probes", "kitchen.rustpeg")], timeout=60)
    if x.rc != 0:
        chk and chk.notes.append("probes/kitchen.rustpeg was not expanded: " + x.err[-300:])
        return []
    text = re.sub(r'"(\\.|[^"\\])*"', '""', x.out)
    # items can't be hygienic: those with two underscores in front are reserved (DESIGN.md, Limits)
    reserved = set(re.findall(r"\b(?:fn|struct|enum|type|mod|trait|const|static)\s+(__\w+)", text))
    names = sorted({n for n in re.findall(r"[A-Za-z_][A-Za-z0-9_]*", text)
                    if "itchen" not in n and n not in reserved and not n.startswith("__parse_") and n not in KEYWORDS})
    if chk:
        chk.add("names_harvested", len(names))
        chk.notes.append("names: " + " ".join(names))
    return names


def publish(names):
    """for the generator"""
    os.environ["PEGMON_NAMES"] = ",".join(n for n in names if n not in OWN)


# construct -> (rule body, input); CHK succeeds only if the name still means what the binder said
CONSTRUCTS = [
    ("plain", 'CHK', ""),
    ("slice", '$(CHK "a")', "a"),
    ("slice_repeat", '$("a"*<{NUM}>) "b"', "aaaaaaab"),
    ("pos_lookahead", '&(CHK "a") "a"', "a"),
    ("neg_lookahead", '!(BAD "a") "a"', "a"),
    ("quiet", 'quiet!{ CHK "a" } CHK', "a"),
    ("optional", '(CHK "a")? "b"', "ab"),
    ("star", '(CHK "a")* "b"', "aaab"),
    ("plus", '(CHK "a")+ "b"', "aaab"),
    ("separator", '"a" ++ (CHK ",")', "a,a,a"),
    ("separated", '(CHK "a") ** ","', "a,a,a"),
    ("bound_exact", '"a"*<{NUM}>', "aaaaaaa"),
    ("bound_max", '"a"*<1,{NUM}> "a"', "aaaaaaaa"),
    ("bound_min_sep", '"a"**<{NUM},> ","', "a,a,a,a,a,a,a"),
    ("choice", '("b" / CHK "a")', "a"),
    ("choice_after", '(BAD "a" / CHK "a" CHK)', "a"),
    ("peg_argument", 'pass(<CHK "a">)', "a"),
    ("peg_argument_repeat", 'pass(<("a"*<{NUM}> {})>)', "aaaaaaa"),
    ("rust_argument", 'take(NUM)', ""),
    ("both_arguments", 'both(<CHK "a">, NUM)', "a"),
    ("generic_call", 'gen::<u8>(<CHK "a">)', "a"),
    ("guard", "[c if EXPR && c == 'a']", "a"),
    ("literals", '"a" "b" CHK ["c" if_never]'.replace('["c" if_never]', "['c'] CHK [^'c'] CHK"), "abcd"),
    ("custom", '#{|i, p| if EXPR { ::peg::RuleResult::Matched(p, ()) } else { ::peg::RuleResult::Failed }}', ""),
    ("position", 'p1:position!() CHK "a" p2:position!() CHK {? if EXPR && p2 == p1 + 1 { Ok(()) } else { Err("captured") } }', "a"),
    ("labels", 'x1:"a" x2:$("b") x3:"c"? x4:("d" { 4 })* CHK {? if EXPR && x2 == "b" && x4.len() == 1 { Ok(()) } else { Err("captured") } }', "abcd"),
    ("atom", 'v:precedence!{ x:(@) "+" y:@ { x + y } -- CHK "1" { 1u32 } } {? if EXPR && v == 2 { Ok(()) } else { Err("captured") } }', "1+1"),
    ("atom_action", 'v:precedence!{ x:(@) "+" y:@ { x + y + NUM } -- "1" { NUM } } {? if v == NUM + NUM + NUM { Ok(()) } else { Err("captured") } }', "1+1"),
    ("infix", 'v:precedence!{ x:(@) "+" CHK y:@ { x + y } -- "1" { 1u32 } } {? if EXPR && v == 2 { Ok(()) } else { Err("captured") } }', "1+1"),
    ("prefix", 'v:precedence!{ "-" CHK x:@ { x + NUM } -- "1" { 1usize } } {? if v == 1 + NUM { Ok(()) } else { Err("captured") } }', "-1"),
    ("postfix", 'v:precedence!{ x:@ "!" CHK { x + NUM } -- "1" { 1usize } } {? if v == 1 + NUM { Ok(()) } else { Err("captured") } }', "1!"),
    ("span_capture", 'v:precedence!{ l:position!() x:@ r:position!() { x + r - l + NUM } -- x:(@) "+" y:@ { x + y } -- "1" { 1usize } } {? if v == 5 + 3 * NUM { Ok(()) } else { Err("captured") } }'
     .replace("5 + 3 * NUM", "(1 + 1 + NUM) * 2 + 3 + NUM"), "1+1"),
]

# binder -> (attributes, parameters, what binds the name, expression that is true iff the name is intact, its value as a number)
BINDERS = [
    ("label", "", "", 'N:seven()', "N == 7usize", "N"),
    ("shadowing_label", "", "", 'N:$("") N:seven()', "N == 7usize", "N"),
    ("cached_label", "#[cache] ", "", 'N:seven()', "N == 7usize", "N"),
    ("left_recursive_label", "#[cache_left_rec] ", "", '(SELF() "~" / "") N:seven()', "N == 7usize", "N"),
    ("capture", "", "", "N:['\\u{7}']", "N == '\\u{7}'", "(N as usize)"),
    ("pattern_capture", "", "", "[N @ '\\u{0}'..='\\u{7}']", "N == '\\u{7}'", "(N as usize)"),
    ("slice_label", "", "", "N:$(\"\\u{7}\")", "N == \"\\u{7}\"", "(N.as_bytes()[0] as usize)"),
    ("rust_parameter", "", "N: usize", "", "N == 7usize", "N"),
    ("grammar_argument", "", "", "", "N == 7usize", "N"),
    ("rule_parameter", "", "N: rule<usize>", "", None, None),
]


def legal(name, binder):
    if name in ("self", "Self", "super", "crate", "_"):
        return False
    upper = name[0].isupper()
    if upper:
        # in a pattern this may be a constant or a variant
        return binder in ("rule_parameter",) and name not in ("Some", "Ok", "Err", "None")
    return True


def module(k, name, rng):
    """Everything with one name; returns the text and the calls to make."""
    rules, calls, outer, outer_calls = [], [], [], []
    pre = ""
    for bn, attr, params, bind, expr, num in BINDERS:
        if not legal(name, bn):
            continue
        for cn, body, inp in CONSTRUCTS:
            if bn != "label" and not THOROUGH and rng.random() > 0.35:
                continue
            rn = "q_%s_%s" % (bn, cn)
            if bn == "rule_parameter":
                if any(s in body for s in ("EXPR", "NUM", "BAD")):
                    continue
                b = body.replace("CHK", "(w:N() {? if w == 7 { Ok(()) } else { Err(\"captured\") } })")
                text = "rule t%s(N: rule<usize>) = %s {}\n pub rule %s() = t%s(<seven()>)" % (rn, b, rn, rn)
                inp2 = inp
            else:
                chk = '("" {? if %s { Ok(()) } else { Err("captured") } })' % expr
                bad = '("" {? if %s { Err("intact") } else { Ok(()) } })' % expr
                b = body.replace("CHK", chk).replace("BAD", bad).replace("EXPR", expr).replace("NUM", num)
                if not re.search(r"\}\s*$", b) or cn in ("custom", "quiet"):
                    b += " {}"
                seq = "%s %s" % (bind, b)
                if bn == "rust_parameter":
                    text = "rule t%s(N: usize) = %s\n pub rule %s() = t%s(7)" % (rn, seq, rn, rn)
                elif bn == "left_recursive_label":
                    text = "%spub rule %s() = %s" % (attr, rn, seq.replace("SELF", rn))
                else:
                    text = "%spub rule %s() = %s" % (attr, rn, seq)
                inp2 = ("\x07" if "capture" in bn and bn != "x" else "") + inp
                if bn == "slice_label":
                    inp2 = "\x07" + inp
            text = re.sub(r"\bN\b", name, text)
            if bn == "grammar_argument":
                outer.append(text)
                outer_calls.append((rn, inp2))
            else:
                rules.append(text)
                calls.append((rn, inp2))
    s = "pub mod m%d {\n peg::parser!{ pub grammar g() for str {\n %s\n %s\n}}\n" % (k, COMMON, "\n ".join(rules))
    if outer:
        s += " peg::parser!{ pub grammar h(%s: usize) for str {\n %s\n %s\n}}\n" % (name, COMMON, "\n ".join(outer))
    s += " pub fn run(f: &mut dyn FnMut(&str, bool, String)) {\n"
    for rn, inp in calls:
        s += "  { let r = g::%s(%s); f(%s, r.is_ok(), format!(\"{:?}\", r)); }\n" % (rn, rs(inp), rs(name + " " + rn))
    for rn, inp in outer_calls:
        s += "  { let r = h::%s(%s, 7); f(%s, r.is_ok(), format!(\"{:?}\", r)); }\n" % (rn, rs(inp), rs(name + " " + rn))
    return s + " }\n}\n"


# Items in the value namespace: where generated code binds a variable of such a name, the pattern
# would mean the item.
ITEMS = {
    "constant": "pub const %s: Unlike = Unlike;",
    "static": "pub static %s: Unlike = Unlike;",
    "variant": "pub enum Unlike2 { %s, Other } pub use self::Unlike2::*;",
    "unit_struct": "pub struct %s;",
    "function": "pub fn %s() {}",
}
# a grammar of everything, whose own names begin with z, and what its rules return
SCOPED = """
 #[cache] pub rule z0() -> usize = zseven() zv:zseven() { zv }
 #[cache_left_rec] pub rule z1() = z1() "+" "1" / "1"
 pub rule z2() -> usize = precedence!{ zx:(@) "+" zy:@ { zx + zy } -- zx:@ "^" zy:(@) { zx * zy } -- "-" zx:@ { zx + 1 } zx:@ "!" { zx + 2 } -- "1" { 1 } "(" zv:z2() ")" { zv } }
 pub rule z3() -> usize = precedence!{ zl:position!() zv:@ zr:position!() { zv + zr - zl } -- zx:(@) "+" zy:@ { zx + zy } -- "1" { 1 } }
 pub rule z4() -> (&'input str, Vec<char>, Option<()>) = za:$(zseven() "a"+) zb:(['b' | 'c'] **<1,2> ",") zo:quiet!{"b"}? &"c" !"d" ['c' if true] { (za, zb, zo) }
 pub rule z5() = "a" {? if 1 > 0 { Ok(()) } else { Err("never") } } / expected!("zx") / #{|_zi, _zp| ::peg::RuleResult::<()>::Failed} {}
 #[no_eof] pub rule z6() -> char = [_] zc:['a'..='z'] ztwice(<zpass(<"c">, 7) {}>, 7) { zc }
 pub rule z7() -> Vec<u8> = zgen::<u8>(<"a">) ++ zcomma() / zv:zgen::<u8>(<"b">)*<{ 1 + 1 }> { zv }
 #[cache_left_rec] pub rule z8() -> usize = za:z8() "-" zb:z0() { za + zb } / z0()
 rule zseven() -> usize = "" { 7 }
 rule zcomma() = ","
 rule zpass(zr: rule<()>, zn: usize) = zr() "" {? if zn == 7 { Ok(()) } else { Err("captured") } }
 rule ztwice(zr: rule<()>, zn: usize) = zpass(<zr()>, zn)
 rule zgen<Z: Default>(zr: rule<()>) -> Z = zr() { Z::default() }
"""
SCOPED_CALLS = [
    ("z0", "", "Ok(7)"), ("z1", "1+1+1", "Ok(())"), ("z1", "1+1+2", 'Err(zerr(4, "\\"1\\""))'), ("z2", "-1+1^(1+1)!", "Ok(6)"), ("z3", "1+1", "Ok(7)"),
    ("z4", "aab,cc", 'Ok(("aa", vec![\'b\', \'c\'], None))'), ("z4", "aad", 'Err(zerr(2, "one of \\"a\\", [\'b\' | \'c\']"))'), ("z5", "a", "Ok(())"), ("z5", "b", 'Err(zerr(0, "one of \\"a\\", zx"))'),
    ("z6", "abcd", "Ok('b')"), ("z7", "a,a", "Ok(vec![0, 0])"), ("z7", "bb", "Ok(vec![0, 0])"), ("z8", "--", "Ok(21)"),
]


# What a pattern in generated code may be called is not promised beyond the names that once broke
# (DESIGN.md, Names in scope): a new local variable is no defect because a constant could have its name.
SCOPED_NAMES = set("str_start err_state infix_result lpos min_prec prefix_atom eloc epos repeat_pos level_code".split())


def scoped(name):
    """may an item of that name stand in the scope of SCOPED?"""
    return name in SCOPED_NAMES


def own_items(k, name):
    """One module for each kind of item that `name` can be; returns the text and the calls to make."""
    out, calls = "", ""
    for kind, item in ITEMS.items():
        m = "i%d_%s" % (k, kind)
        out += "pub mod %s {\n pub struct Unlike;\n %s\n peg::parser!{ pub grammar g() for str {%s}}\n}\n" % (m, item % name, SCOPED)
        for r, inp, want in SCOPED_CALLS:
            calls += ("  { let r = %s::g::%s(%s).map_err(|e| (e.location.offset, e.expected.to_string())); let w = %s; f(%s, r == w, format!(\"{:?}\", r)); }\n"
                      % (m, r, rs(inp), want, rs("%s a %s in scope, rule %s" % (name, kind, r))))
    return out, calls


# names of our own are chosen so that no expansion mentions them
COMMON = """rule seven() -> usize = "" { 7 }
 rule pass(zz1: rule<()>) = zz1()
 rule take(zz2: usize) = "" {? if zz2 == 7 { Ok(()) } else { Err("captured") } }
 rule both(zz1: rule<()>, zz2: usize) = zz1() "" {? if zz2 == 7 { Ok(()) } else { Err("captured") } }
 rule gen<ZZ: Default>(zz1: rule<()>) -> ZZ = zz1() { ZZ::default() }"""


def rs(s):
    return '"%s"' % "".join(c if " " <= c <= "~" and c not in '"\\' else "\\u{%x}" % ord(c) for c in s)


def program(names):
    s, calls = "#![allow(warnings)]\n", ""
    for k, n in enumerate(names):
        s += module(k, n, random.Random("%d %s" % (SEED, n)))
        if scoped(n):
            a, b = own_items(k, n)
            s += a
            calls += b
    s += ("fn zerr(a: usize, b: &str) -> (usize, String) { (a, b.to_string()) }\nfn main() {\n let mut n = 0;\n let mut f = |what: &str, ok: bool, got: String| { n += 1; if !ok { eprintln!(\"BAD {}: {}\", what, got); } };\n %s\n%s eprintln!(\"STAT {}\", n);\n}\n"
          % (" ".join("m%d::run(&mut f);" % k for k in range(len(names))), calls))
    return s


def check(chk, peg, names, tag, skip=()):
    rng = random.Random(SEED * 977 + len(tag))
    names = sorted(set(names) | set(ALWAYS))
    names = [n for n in names if n not in skip or THOROUGH or rng.random() < 0.2]
    names = [n for n in names if any(legal(n, b[0]) for b in BINDERS)]
    rng.shuffle(names)
    per = 4
    chunks = [names[i:i + per] for i in range(0, len(names), per)]

    def build(ns, label):
        src = os.path.join(chk.dir, "names-%s-%s.rs" % (tag, label))
        text = program(ns)
        open(src, "w").write(text)
        x = rustc(src, src[:-3], peg.ext, peg.toolchain, ("-C", "debuginfo=0"))
        return src, text, x

    def clean(src):
        for f in (src, src[:-3]):
            if os.path.exists(f):
                os.remove(f)

    def one(ic):
        i, ns = ic
        src, text, x = build(ns, str(i))
        if x.rc == 1 and not x.timed_out:
            for n in ns:
                s1, t1, y = build([n], "%d-%s" % (i, n))
                if y.rc == 1:
                    chk.violation("a grammar that uses the name `%s` does not compile (%s build): %s" % (n, tag, engine.first_error(y.err)),
                                  {"program.rs": t1, "rustc.txt": y.err[-6000:]})
                clean(s1)
        elif x.rc == 0:
            y = run([src[:-3]], timeout=120, cpu=60, mem_gb=4, stdout_path="/dev/null")
            bad = [l[4:] for l in y.err.splitlines() if l.startswith("BAD ")]
            n = [int(l[5:]) for l in y.err.splitlines() if l.startswith("STAT ")]
            chk.add("name_uses." + tag, sum(n))
            chk.add("name_uses", sum(n))
            for b in bad[:3]:
                chk.violation("a name does not mean what the grammar says (%s build): name, place: %s" % (tag, b[:300]), {"program.rs": text})
            if not n and not bad:
                chk.violation("a program full of hostile names ends with %s (%s build)" % (y.rc, tag), {"program.rs": text, "stderr.txt": y.err[-4000:]})
        else:
            chk.notes.append("rustc ended with %s on names %s" % (x.rc, ns))
        clean(src)
    pmap(one, list(enumerate(chunks)))
