"""The macro side: what parser! accepts, how it complains, and that it always answers.
Works on grammar texts through the rust-peg binary (the macro's own code without
rustc) and on whole programs through rustc."""
import json, os, re, shutil
from common import *

EXPECTED_ERR = re.compile(r"Failed to parse grammar: expected (.*)", re.S)
CE = re.compile(r'compile_error\s*!\s*\(\s*"((?:[^"\\]|\\.)*)"\s*\)')


class Verdict:
    def __init__(self, kind, msgs, r):
        self.kind, self.msgs, self.r = kind, msgs, r


def run_bin(peg, path, timeout=20):
    """ok | rejected (compile_error items) | syntax | unlexable | panic | hang"""
    r = run([peg.bin, path], timeout=timeout, cpu=timeout + 5, mem_gb=8, env=base_env())
    if r.timed_out or r.rc in (-24, -9):
        return Verdict("hang", [], r)
    if r.rc == 0:
        m = CE.findall(r.out)
        return Verdict("rejected" if m else "ok", m, r)
    if r.rc == 1 and "Failed to parse grammar" in r.err:
        return Verdict("syntax", [EXPECTED_ERR.search(r.err).group(1).strip() if EXPECTED_ERR.search(r.err) else ""], r)
    if "Error tokenizing input" in r.err:
        return Verdict("unlexable", [], r)
    return Verdict("panic", [r.err[-400:]], r)


def write(path, text):
    with open(path, "w") as f:
        f.write(text)


def gen_cmd(mon, *a):
    x = run([mon.gen] + [str(y) for y in a], timeout=600)
    if x.rc != 0:
        raise Inconclusive("generator failed: " + x.err[-1000:])


def raw_batch(mon, seed, batch, count, d):
    os.makedirs(d, exist_ok=True)
    gen_cmd(mon, "raw", seed, batch, count, d)
    v = open(os.path.join(d, "verdicts")).read().split()
    return [(os.path.join(d, "%d.rustpeg" % i), v[i]) for i in range(count)]


def text_batch(mon, profile, seed, batch, count, d):
    os.makedirs(d, exist_ok=True)
    gen_cmd(mon, "texts", profile, seed, batch, count, d)
    return [[os.path.join(d, "%d.%d.rustpeg" % (i, k)) for k in range(4)] for i in range(count)]


# ---------------------------------------------------------------- tokens

TOK = re.compile(r"""
  (?P<ws>\s+|//[^\n]*|/\*.*?\*/)
 |(?P<str>b?r(?P<h>\#*)".*?"(?P=h)|b?"(?:[^"\\]|\\.)*")
 |(?P<chr>b?'(?:[^'\\\n]|\\(?:x..|u\{[^}]*\}|.))')
 |(?P<life>'[^\W\d]\w*)
 |(?P<num>\d[\w]*(?:\.\d\w*)?)
 |(?P<id>(?:r\#)?[^\W\d]\w*)
 |(?P<punct>\*\*|\+\+|\#\#|--|->|=>|::|\.\.=|\.\.|<<|>>|&&|\|\||==|!=|<=|>=|[-+*/%^!&|=<>@.,;:\#$?~(){}\[\]])
""", re.X | re.S)


class Tk:
    __slots__ = ("kind", "text", "a", "b", "peg", "close")

    def __init__(self, kind, text, a, b):
        self.kind, self.text, self.a, self.b, self.peg, self.close = kind, text, a, b, False, None


def lex(text):
    out, p = [], 0
    while p < len(text):
        m = TOK.match(text, p)
        if not m:
            raise ValueError("cannot lex at %r" % text[p:p + 20])
        if m.lastgroup == "ws" or m.group("ws") is not None:
            p = m.end()
            continue
        kind = next(k for k in ("str", "chr", "life", "num", "id", "punct") if m.group(k) is not None)
        out.append(Tk(kind, m.group(0), m.start(), m.end()))
        p = m.end()
    st = []
    for i, t in enumerate(out):
        if t.kind == "punct" and t.text in "([{":
            st.append(i)
        elif t.kind == "punct" and t.text in ")]}":
            out[st.pop()].close = i
    return out


BANG = ("position", "expected", "quiet", "precedence")


def mark_peg(ts):
    """Set .peg on tokens where the next thing read is PEG notation of a rule's expression
    (not Rust, not the arguments of a call); returns index of the body's braces."""
    body = None
    for i, t in enumerate(ts):
        if t.text == "for":
            j = i + 1
            while ts[j].text != "{":
                j = ts[j].close + 1 if ts[j].close else j + 1
            body = j
            break
    end = ts[body].close

    def walk(i, stop):
        while i < stop:
            t = ts[i]
            prev = ts[i - 1] if i else None
            t.peg = True
            if t.close is not None:
                inner = False
                if t.text == "(":
                    call = prev.kind == "id" and not (prev.text in BANG)
                    if prev.text == ">":
                        call = True  # turbofish, or the end of a bound: either way leave it alone
                    bang = prev.text == "!" and ts[i - 2].text in BANG
                    inner = not call and not bang
                    if prev.text == "##" or (prev.kind == "id" and ts[i - 2].text == "##"):
                        inner = False
                elif t.text == "{":
                    inner = prev.text == "!" and ts[i - 2].text in ("quiet", "precedence")
                if prev.text == ":" or prev.text == ",":
                    inner = inner and t.text == "("
                if inner:
                    walk(i + 1, t.close)
                    ts[t.close].peg = True
                i = t.close + 1
                continue
            if t.text in ("*", "**", "#", "##", "<") and i + 1 < stop:
                pass
            i += 1

    i = body + 1
    while i < end:
        if ts[i].text == "rule" or ts[i].text == "pub":
            # skip the header
            while ts[i].text != "=":
                i = ts[i].close + 1 if ts[i].close else i + 1
            j = i + 1
            k = j
            while k < end and not (ts[k].text in ("rule", "pub", "use") and ts[k].kind == "id") and ts[k].text != ";" \
                    and not (ts[k].text == "#" and ts[k + 1].text == "["):
                k = ts[k].close + 1 if ts[k].close else k + 1
            walk(j, k)
            i = k
        else:
            i = ts[i].close + 1 if ts[i].close else i + 1
    return body, end


# ---------------------------------------------------------------- faults

# (kind, rules with the offending part between « and », what the message must say)
# Every helper name starts with zz so that it does not meet a generated one.
HELP = 'rule zy() = "y" rule zyv() -> u8 = "y" { 1 } rule zn() = "n"? rule zt(x: rule<()>) -> () = x() "t" {} rule zr(n: usize) -> () = "r" rule zg<T: Default>() -> T = "g" { T::default() }\n'
UNDEF = "undefined rule"
ARGS = r"this rule takes \d+ parameters but \d+ parameters were supplied"
LOOP = "loops infinitely"
LREC = "left recursive"
FAULTS = [
 ("undefined", 'rule zz() = "a" «nope»()', UNDEF),
 ("undefined", 'rule zz() -> u8 = "a" v:«nope»() { v }', UNDEF),
 ("undefined", 'rule zz() = ("a" / "b" «nope»()? )* "c"', UNDEF),
 ("undefined", 'rule zz() = !«nope»() $("a" / "b")', UNDEF),
 ("undefined", 'rule zz() = zt(<"a" «nope»()>)', UNDEF),
 ("undefined", 'rule zz() = "a" ** «nope»()', UNDEF),
 ("undefined", 'rule zz() = «nope»::<u8>() "a"', UNDEF),
 ("undefined", 'rule zz() = "a" «__» "b"', UNDEF),
 ("undefined", 'rule zz() = «nope»(1, 2, <"a">)', UNDEF),
 ("undefined", 'rule zz() -> u8 = precedence!{ x:(@) «nope»() y:@ { x + y } -- zyv:zyv() { zyv } }', UNDEF),
 ("undefined", 'rule zz() = quiet!{ $(«nope»()) }', UNDEF),
 ("undefined", 'rule zz(x: rule<()>) = x() «y»()', UNDEF),
 ("undefined", '#[cache] rule zz() = "q" «zz2»() / "z"', UNDEF),
 ("undefined", 'pub rule zz(n: usize) = zr(n) &«nope»()', UNDEF),
 ("arguments", 'rule zz() = «zy»(1)', ARGS),
 ("arguments", 'rule zz() = «zr»() "a"', ARGS),
 ("arguments", 'rule zz() = «zr»(1, 2)', ARGS),
 ("arguments", 'rule zz() = «zt»()', ARGS),
 ("arguments", 'rule zz() = ("a" «zt»(<"b">, <"c">))+', ARGS),
 ("arguments", 'rule zz() -> u8 = v:«zyv»(<"x">) { v }', ARGS),
 ("arguments", 'rule zz() = zt(<«zr»() {}>)', ARGS),
 ("arguments", 'rule zz(x: rule<()>) = «x»(1)', "rule closure does not accept arguments"),
 ("arguments", 'rule zz(x: rule<()>) = "a" «x»(<"b">)', "rule closure does not accept arguments"),
 ("arguments", 'rule zz(x: rule<()>) = «x»::<u8>()', "rule closure cannot have generics"),
 ("no_value", 'rule zz() -> u8 = v:«zy»() { 1 }', "does not return a value"),
 ("no_value", 'rule zz() -> Vec<()> = «zy»()*', "does not return a value"),
 ("no_value", 'rule zz() -> Option<()> = "a" v:(«zy»()?) { v }', "does not return a value"),
 ("duplicate", 'rule zz() = "a" rule «zz»() = "b"', "duplicate rule"),
 ("duplicate", 'pub rule zz() -> u8 = "a" { 1 } rule «zz»(n: usize) = "b"', "duplicate rule"),
 ("duplicate", 'rule «zy»() = "again"', "duplicate rule"),
 ("duplicate", '#[cache] rule «zyv»() -> u8 = "again" { 2 }', "duplicate rule"),
 ("cache", '#[cache] rule «zz»(n: usize) = "a"', "cannot use #\\[cache\\]"),
 ("cache", '#[cache_left_rec] rule «zz»(x: rule<()>) = x()', "cannot use #\\[cache\\]"),
 ("cache", '#[cache] rule «zz»<T: Default>() -> T = "a" { T::default() }', "cannot use #\\[cache\\]"),
 ("cache", '#[cache] pub rule «zz»(n: usize) -> usize = "a" { n }', "cannot use #\\[cache\\]"),
 ("no_eof", '#[no_eof] rule «zz»() = "a"', "#\\[no_eof\\] is only meaningful"),
 ("no_eof", '#[cache] #[no_eof] rule «zz»() = "a"', "#\\[no_eof\\] is only meaningful"),
 ("pub_param", 'pub rule zz(«x»: rule<()>) = x()', "parameters on `pub rule` must be Rust types"),
 ("pub_param", 'pub rule zz(n: usize, «x»: rule<u8>) -> u8 = x()', "parameters on `pub rule` must be Rust types"),
 ("loop", 'rule zz() = «(""*)*»', LOOP),
 ("loop", 'rule zz() = "a" «("b"?)*» "c"', LOOP),
 ("loop", 'rule zz() = «("b"?)+»', LOOP),
 ("loop", 'rule zz() = «(&"b")*»', LOOP),
 ("loop", 'rule zz() = "x" («(!"b" / "c")+» "d")', LOOP),
 ("loop", 'rule zz() = «zn()*»', LOOP),
 ("loop", 'rule zz() = «zn()**("c"?)»', LOOP),
 ("loop", 'rule zz() = «("a"* "b"?)++zn()»', LOOP),
 ("loop", 'rule zz() -> Vec<usize> = «position!()*»', LOOP),
 ("loop", 'rule zz() = zt(<«(zn())+» "q">)', LOOP),
 ("loop", 'rule zz() = «quiet!{zn()}*»', LOOP),
 ("loop", 'rule zz() = «$("a"?)*»', LOOP),
 ("loop", 'rule zz() = «("a"*<0,3>)*<2,>»', LOOP),
 ("loop", 'rule zz() = «("a"*<0usize,3>)*<2,>»', LOOP),
 ("loop", 'rule zz() = «("a"**<0x0,> ",")*»', LOOP),
 ("loop", 'rule zz() = «("a"*<00>)+»', LOOP),
 ("loop", 'rule zz() = «("\\\n  ")*»', LOOP),
 ("loop", 'rule zz() = «("\\\n \\\n\t" r#""#)+»', LOOP),
 ("left_recursion", 'rule zz() = "\\\n    " «zz()» "b"', LREC),
 ("loop", 'rule zz() -> Vec<u8> = «("a" {1} / {2})*»', LOOP),
 ("loop", 'rule zz() = !«("a"?)*» "b"', LOOP),
 ("loop", 'rule zz() = «(zn() zn())*<{1},>»', LOOP),
 ("loop", 'rule zz() -> u8 = precedence!{ x:(@) «("b"?)*» "+" y:@ { x + y } -- "1" { 1 } }', LOOP),
 ("left_recursion", 'rule zz() = «zz() "a" / "b"»', LREC),
 ("left_recursion", '#[cache] rule zz() = «zz() "a" / "b"»', LREC),
 ("left_recursion", 'rule zz() = "a"? &"b" «zz()»', LREC),
 ("left_recursion", 'rule zz() = "x" / («zz()») "y"', LREC),
 ("left_recursion", 'rule zz() = zn() "q"* «zz()»', LREC),
 ("left_recursion", 'rule zz() = "x" / !«zz()» "y"', LREC),
 ("left_recursion", 'rule «zz() = "a"? zz2() rule zz2() = "b" / zz()»', LREC),
 ("left_recursion", 'rule «zz() = zz2() rule zz2() = "b" zz() / zz3() rule zz3() = zn() zz() "c"»', LREC),
 ("left_recursion", 'rule zz() -> u8 = precedence!{ x:(@) "+" y:@ { x + y } -- "1" { 1 } «zz()» "!" { 2 } }', LREC),
 ("left_recursion", 'rule zz() = («zz()» ";")*', LREC),
 ("left_recursion", 'rule zz() = $(«zz()» "x") / "y"', LREC),
 ("left_recursion", 'rule zz() = quiet!{ zn() «zz()» } / "y"', LREC),
 ("left_recursion", 'rule zz() = "a"*<,3> «zz()» "b"', LREC),
 ("left_recursion", 'rule zz() = "a"*<0_0,3> «zz()» "b"', LREC),
 ("marker", 'rule zz() = "a" «@»', "only allowed in `precedence!"),
 ("marker", 'rule zz() = "b" ( «(@)» / "a")', "only allowed in `precedence!"),
 ("precedence", 'rule zz() -> u8 = precedence!{ «x:@ "+" y:@ { x + y }» -- "1" { 1 } }', "to indicate associativity"),
 ("precedence", 'rule zz() -> u8 = precedence!{ «x:(@) "+" y:(@) { x + y }» -- "1" { 1 } }', "to indicate associativity"),
 ("precedence", 'rule zz() -> u8 = precedence!{ x:(@) "+" y:@ { x + y } -- «{ 1 }» "2" { 3 } }', "incomplete rule"),
 ("precedence", 'rule zz() -> u8 = precedence!{ «l:position!() "x" r:position!() { 2 }» -- "1" { 1 } }', "span capture rule must be"),
 # syntax errors whose place is plain
 ("syntax", 'rule zz() «"a"»', "expected .*=.*"),
 ("syntax", 'rule zz() «"a"» = "b"', "expected .*->.*"),
 ("syntax", '«rule =» "a"', "expected "),
 ("syntax", 'rule zz() = "a" / «)»'.replace(")»", "%»"), "expected "),
 ("syntax", 'rule zz() -> «=» "a"', "expected "),
 ("syntax", 'rule zz() = "a" *<«>» "b"', "expected "),
 ("syntax", 'rule zz() = "a" *<1 «"b"»', "expected "),
 ("syntax", 'rule zz() = "a" ++ «/» "b"', "expected "),
 ("syntax", 'rule zz() = $«*» "b"', "expected "),
 ("syntax", 'rule zz() = position!«[]» "b"', "expected "),
 ("syntax", 'rule zz() = «expected!{"x"}» "b"', "expected "),
 ("syntax", 'rule zz() = quiet!«("x")» "b"', "expected "),
 ("syntax", 'rule zz() = x: «y:» "b"', "expected "),
 ("syntax", 'rule zz() = "b" { 1 } «"c"»', "expected "),
 ("syntax", 'rule zz(«3»: u8) = "b"', "expected "),
 ("syntax", 'rule zz(x «=» u8) = "b"', "expected "),
 ("syntax", 'rule zz<«=»>() = "b"', "expected "),
 ("syntax", '#[no_eof] «#[cache]» pub rule zz() = "b"', "expected "),
 ("syntax", '#[«memoize»] rule zz() = "b"', "expected "),
 ("syntax", '«fn» zz() = "b"', "expected "),
 ("syntax", 'rule zz() = "b" ? «?»', "expected "),
 ("syntax", 'rule zz() = "b" * «+»', "expected "),
 ("syntax", 'rule zz() = & «&» "x"', "expected "),
 ("syntax", 'rule zz() = «##(1)»', "expected "),
 ("syntax", 'rule zz() = «#(1)»', "expected "),
 ("syntax", 'rule zz() = «##zz {1}»', "expected "),
 ("syntax", 'rule zz() -> u8 = precedence!{ x:(@) "+" y:@ «--» "1" { 1 } }', "expected "),
 ("syntax", 'rule zz() where T: «=» "a"', "expected "),
 ("syntax", 'rule zz() = «rule» zz2() = "a"', None),
 ("syntax", 'use «"x"»; rule zz() = "a"', "expected "),
 ("syntax", 'use a::b «rule» zz() = "a"', "expected "),
]
FAULTS = [f for f in FAULTS if f[2] is not None]


class Fault:
    def __init__(self, kind, text, a, b, pat, exact=None):
        """text of the whole grammar; the error must lie within [a, b) and match pat.
        exact: the spans (relative to text) one of which the error must have."""
        self.kind, self.text, self.a, self.b, self.pat, self.exact = kind, text, a, b, pat, exact


def planted(base, rng, fault=None):
    """a fault from the table inside a generated grammar"""
    kind, rules, pat = fault or rng.choice(FAULTS)
    a, b = rules.index("«"), rules.index("»") - 1
    rules = rules.replace("«", "").replace("»", "")
    ts = lex(base)
    body, end = mark_peg(ts)
    if rng.random() < 0.5:
        at = ts[body].b
        pre, post = " " + HELP, "\n"
    else:
        at = ts[end].a
        pre, post = "\n" + HELP, " "
    text = base[:at] + pre + rules + post + base[at:]
    o = at + len(pre)
    return Fault(kind, text, o + a, o + b, re.compile(pat, re.S))


LITERAL_TOKENS = {"/", ";", "}", "?", "**", "++", "*", "+", ":", "--", "@", "$", "&", "!", "#", "##", ">", ",", "(", ")", "rule", "pub", "use"}


def foreign(base, rng):
    """a token that belongs to no grammar, between two tokens of a rule's expression"""
    ts = lex(base)
    mark_peg(ts)
    # where only a group or an identifier can follow, the notation's parser has no name for it
    ks = [i for i, t in enumerate(ts) if t.peg and ts[i - 1].text not in ("##", "#") and ts[i - 2].text != "##"
          and not (ts[i - 1].text == "!" and ts[i - 2].text == "expected")]
    k = rng.choice(ks)
    junk = rng.choice(["%", "~", "^", ".", "|"])
    at = ts[k].a
    text = base[:at] + " " + junk + " " + base[at:]
    # what stands there in the intact grammar is one of the things that could
    pat = "^expected "
    if ts[k].text in LITERAL_TOKENS:
        pat = "^expected .*" + re.escape('"%s"' % ts[k].text)
    return Fault("foreign_token", text, at + 1, at + 1 + len(junk), re.compile(pat, re.S), exact=[(at + 1, at + 1 + len(junk))])


def truncated(base, rng):
    """the rest of the grammar body missing from some place at its top level on"""
    ts = lex(base)
    body, end = mark_peg(ts)
    depth, ks = 0, []
    i = body + 1
    while i < end:
        if ts[i].peg:
            ks.append(i)
        i = ts[i].close + 1 if ts[i].close else i + 1
    ks = [k for k in ks if ts[k - 1].text in ("=", "/", "**", "++", ":", "$", "&", "!", "<") and (ts[k - 1].text != "!" or ts[k - 2].text not in BANG)]
    if not ks:
        return None
    k = rng.choice(ks)
    text = base[:ts[k].a] + "\n}\n"
    # an empty alternative is legal: `a /` then nothing
    if ts[k - 1].text in ("=", "/"):
        return None
    return Fault("truncated", text, ts[body].a, len(text), re.compile("^expected "), exact=[(ts[body].a, len(text) - 1)])


def check_faults(peg, faults, work, tag):
    """compile all in one program; returns a list of (fault, problem) and the number of errors seen"""
    src = os.path.join(work, tag + ".rs")
    s = "#![allow(warnings)]\n"
    place = []
    for i, f in enumerate(faults):
        s += "mod m%d { use pegmon::pre::*;\n::peg::parser!{" % i
        a = len(s.encode())
        s += f.text
        place.append((a, len(s.encode())))
        s += "}\n}\n"
    s += "fn main() {}\n"
    write(src, s)
    x = rustc(src, src[:-3] + ".out", peg.mon_ext + peg.ext, peg.toolchain, ("--emit=metadata",), json_errors=True)
    if x.timed_out:
        return None, 0, x
    errs = [[] for _ in faults]
    n = 0
    panics = []
    for l in x.err.splitlines():
        try:
            m = json.loads(l)
        except ValueError:
            continue
        if m.get("level") not in ("error", "error: internal compiler error"):
            continue
        if "proc macro panicked" in m["message"] or "procedural macro" in m["message"] or "custom attribute panicked" in m["message"]:
            sp = m["spans"][0] if m["spans"] else None
            panics.append((sp["byte_start"] if sp else 0, m.get("rendered", "")))
        for sp in m["spans"]:
            if not sp["is_primary"]:
                continue
            while sp.get("expansion") and sp["file_name"] != src:
                sp = sp["expansion"]["span"]
            for i, (a, b) in enumerate(place):
                # the invocation's own span (call site) starts before the text
                if a - 20 <= sp["byte_start"] and sp["byte_end"] <= b + 2:
                    errs[i].append((sp["byte_start"] - a, sp["byte_end"] - a, m["message"]))
                    n += 1
    bad = []
    for i, f in enumerate(faults):
        bt = f.text.encode()
        fa, fb = len(f.text[:f.a].encode()), len(f.text[:f.b].encode())
        a0, b0 = place[i]
        p = [r for (o, r) in panics if a0 - 20 <= o <= b0]
        if p:
            bad.append((f, "the macro panicked: " + p[0][:600]))
            continue
        hits = [e for e in errs[i] if f.pat.search(e[2])]
        if not errs[i]:
            bad.append((f, "no error is located inside the invocation"))
        elif not hits:
            bad.append((f, "no error says %r; got %s" % (f.pat.pattern, [e[2][:120] for e in errs[i][:4]])))
        elif f.exact is not None:
            ex = [(len(f.text[:u].encode()), len(f.text[:v].encode())) for u, v in f.exact]
            if not any((e[0], e[1]) in ex for e in hits):
                bad.append((f, "the error %r is at bytes %s of the grammar instead of %s" % (hits[0][2][:160], [(e[0], e[1]) for e in hits[:3]], ex)))
        elif getattr(f, "call_site", False):
            pass
        elif not any(e[0] < fb and e[1] > fa and e[0] >= fa and e[1] <= fb for e in hits):
            bad.append((f, "the error %r is at %r instead of within %r"
                        % (hits[0][2][:160], bt[max(0, hits[0][0]):hits[0][1]].decode("utf8", "replace")[:200], f.text[f.a:f.b])))
    return bad, n, x


# ---------------------------------------------------------------- hostile texts

POOL = ["grammar", "rule", "pub", "use", "for", "str", "x", "_", "__", "r#fn", "position", "quiet", "expected", "precedence", "cache",
        "no_eof", "where", "dyn", "impl", "mut", "crate", "as", "type", "self", '"a"', "'a'", "b\"x\"", 'r"q"', "1", "1.5", "0x1u8", "'a ",
        "!", "#", "##", "$", "&", "*", "**", "+", "++", "/", ":", "::", ";", ",", "?", "@", "<", ">", "=", "->", "=>", "-", "--", "%", "^", "|", "..", "..=", ".", "~", "<<", ">>", "&&"]
OPEN = ["()", "[]", "{}"]


def soup(rng, n):
    out = []
    while n > 0:
        n -= 1
        if rng.random() < 0.18:
            p = rng.choice(OPEN)
            k = rng.randrange(0, max(1, min(n, 12)))
            out.append(p[0] + " " + soup(rng, k) + " " + p[1])
            n -= k
        else:
            out.append(rng.choice(POOL))
    return " ".join(out)


def mutate(text, rng, other=None):
    """one to three token-tree edits that keep the text lexable"""
    ts = lex(text)
    segs = [t.text for t in ts]
    close = {i: t.close for i, t in enumerate(ts) if t.close}
    edits = rng.choice([1, 1, 1, 2, 3])
    skip = {}
    for _ in range(edits):
        i = rng.randrange(len(ts))
        t = ts[i]
        if t.kind == "punct" and t.text in ")]}":
            continue
        j = (t.close or i) + 1
        op = rng.choice(["del", "dup", "rep", "ins", "ins", "swapdelim", "move", "wrap", "del"])
        if op == "del":
            for k in range(i, j):
                segs[k] = ""
        elif op == "dup":
            segs[j - 1] = segs[j - 1] + " " + " ".join(segs[i:j])
        elif op == "rep":
            tok = rng.choice(POOL) if rng.random() < 0.7 or not other else rng.choice(other)
            segs[i] = tok
            for k in range(i + 1, j):
                segs[k] = ""
        elif op == "ins":
            tok = rng.choice(POOL + OPEN) if rng.random() < 0.7 or not other else rng.choice(other)
            segs[i] = tok + " " + segs[i]
        elif op == "swapdelim" and t.close:
            p = rng.choice(OPEN)
            segs[i], segs[t.close] = p[0], p[1]
        elif op == "wrap":
            p = rng.choice(OPEN)
            segs[i] = p[0] + " " + segs[i]
            segs[j - 1] = segs[j - 1] + " " + p[1]
        elif op == "move":
            s = " ".join(segs[i:j])
            for k in range(i, j):
                segs[k] = ""
            q = rng.randrange(len(segs))
            if not (i <= q < j):
                segs[q] = segs[q] + " " + s
    return " ".join(x for x in segs if x)


def big_texts():
    """well-formed and ill-formed grammars in which some dimension is large"""
    out = []

    def g(name, body, want):
        out.append((name, "grammar g() for str { %s }\n" % body, want))
    for n in (26, 60):
        g("chain%d" % n, "pub " + " ".join("rule r%d() = r%d() / r%d() \"x\"" % (i, i + 1, i + 1) for i in range(n)) + ' rule r%d() = "z"' % n, "ok")
        g("seqchain%d" % n, "pub " + " ".join("rule r%d() = r%d()? r%d() r%d()?" % (i, i + 1, i + 1, i + 1) for i in range(n)) + ' rule r%d() = "z"' % n, "ok")
        g("nullchain%d" % n, "pub " + " ".join("rule r%d() = r%d() r%d()" % (i, i + 1, i + 1) for i in range(n)) + ' rule r%d() = "z"?' % n, "ok")
        g("nullloop%d" % n, "pub " + " ".join("rule r%d() = r%d() r%d()" % (i, i + 1, i + 1) for i in range(n)) + ' rule r%d() = ("z"?)*' % n, "rejected")
        g("backchain%d" % n, "pub " + " ".join("rule r%d() = r%d() r%d()" % (i, i + 1, i + 1) for i in range(n)) + ' rule r%d() = "z" r0()' % n, "ok")
    for n in (30, 48):
        g("parens%d" % n, "pub rule r() = " + "(" * n + '"x"' + ")" * n, "ok")
        g("parensmod%d" % n, "pub rule r() = " + "(\"a\" " * n + '"x"' + ")?" * n, "ok")
        g("parenssep%d" % n, "pub rule r() = " + "(\"a\" / " * n + '"x"' + ") ** \",\"" * n, "ok")
        g("quiet%d" % n, "pub rule r() = " + "quiet!{" * n + '"x"' + "}" * n, "ok")
        g("prefix%d" % n, "pub rule r() = " + "!(&(" * (n // 2) + '"x"' + "))" * (n // 2), "ok")
        g("prec%d" % n, "pub rule r() -> u8 = " + "precedence!{ v:(" * (n // 3) + '"x" {1}' + ") {v} }" * (n // 3), "ok")
        g("args%d" % n, "rule t(x: rule<()>) -> () = x() pub rule r() -> () = " + "t(<" * n + '"x"' + ">)" * n, "ok")
        g("types%d" % n, "pub rule r() -> " + "Vec<" * n + "u8" + " >" * n + ' = "x" { panic!() }', "ok")
        g("tuples%d" % n, "pub rule r() -> " + "(" * n + "u8" + ",)" * n + ' = "x" { panic!() }', "ok")
        g("unclosed_types%d" % n, "pub rule r() -> " + "Vec<(" * n + "u8" + ")" * n + ' = "x"', "syntax")
        g("bad_parens%d" % n, "pub rule r() = " + "(" * n + '"x" %' + ")" * n, "syntax")
        g("bad_args%d" % n, "rule t(x: rule<()>) = x() pub rule r() = " + "t(<" * n + '"x" %' + ">)" * n, None)
    g("choice600", "pub rule r() = " + " / ".join('"%d"' % i for i in range(600)), "ok")
    g("sequence300", "pub rule r() = " + " ".join('"%d"' % i for i in range(300)), "ok")
    g("rules800", " ".join('pub rule r%d() = "x" r%d()' % (i, (i + 1) % 800) for i in range(800)), "ok")
    g("levels60", "pub rule r() -> u8 = precedence!{ " + " -- ".join('x:(@) "%d" y:@ { x + y }' % i for i in range(60)) + ' -- "n" { 1 } }', "ok")
    return out
