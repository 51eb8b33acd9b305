"""Large cases: counts, lengths, depths and positions past every width a counter could have,
judged by closed formulas instead of the reference interpreter."""
import random
from common import *
import engine

HEAD = r"""#![allow(warnings)]
use std::fmt::Debug;
use std::collections::{BTreeSet, HashMap};
use std::cell::Cell;
thread_local!{ static N: Cell<u64> = Cell::new(0); static BAD: Cell<u64> = Cell::new(0); static TICKS: Cell<u64> = Cell::new(0); }
fn tick() -> bool { TICKS.with(|t| t.set(t.get() + 1)); true }
fn ticks() -> u64 { TICKS.with(|t| t.replace(0)) }
fn cut<T: Debug>(t: &T) -> String { let s = format!("{:?}", t); if s.len() > 160 { s.chars().take(80).chain(" .. ".chars()).chain(s.chars().rev().take(60).collect::<Vec<_>>().into_iter().rev()).collect() } else { s } }
fn eq<A: PartialEq + Debug>(what: &str, n: usize, got: A, want: A) {
    N.with(|c| c.set(c.get() + 1));
    if got != want { BAD.with(|c| { c.set(c.get() + 1); if c.get() < 20 { println!("BAD {} (size {}): got {}, expected {}", what, n, cut(&got), cut(&want)); } }) }
}
struct Rng(u64);
impl Rng { fn next(&mut self) -> u64 { self.0 ^= self.0 << 13; self.0 ^= self.0 >> 7; self.0 ^= self.0 << 17; self.0.wrapping_mul(0x2545F4914F6CDD1D) >> 16 } fn below(&mut self, n: usize) -> usize { (self.next() % n as u64) as usize } fn pct(&mut self, p: usize) -> bool { self.below(100) < p } }
/// location and expected set of an error
fn at<L: std::fmt::Display + Debug, T: Debug, F: Fn(&L) -> usize>(r: Result<T, peg::error::ParseError<L>>, f: F) -> Option<(usize, Vec<&'static str>)> {
    match r { Ok(_) => None, Err(e) => Some((f(&e.location), e.expected.tokens().collect())) }
}
fn off(l: &peg::str::LineCol) -> usize { l.offset }
fn idx(l: &usize) -> usize { *l }
fn main() {
    let seed: u64 = std::env::args().nth(1).unwrap().parse().unwrap();
    let t = std::thread::Builder::new().stack_size(3 << 30).spawn(move || {
        let mut rng = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) | 1);
        for _ in 0..9 { rng.next(); }
        run(&mut rng);
        println!("STAT checks {}", N.with(|c| c.get()));
    }).unwrap();
    if t.join().is_err() { std::process::exit(9) }
}
const SIZES: &[usize] = &[0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 32767, 32768, 65535, 65536, 65537, 70000 @EXTRA@];
const DEPTHS: &[usize] = &[0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1023, 1024, 1025, 2000 @EXTRAD@];
"""


def q(s):
    return '"%s"' % "".join(c if " " <= c <= "~" and c not in '"\\' else "\\u{%x}" % ord(c) for c in s)


def c01(rng):
    words = set()
    while len(words) < 320:
        words.add("".join(rng.choice("ab") for _ in range(rng.randint(1, 10))))
    words = sorted(words, key=lambda w: rng.random())
    lens = sorted({1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 23, 24, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 600, 1024, 1025})
    chars = "abcxyz0123 é€😀\n\t'"
    lits = ["".join(rng.choice(chars) for _ in range(n)) for n in lens]
    return """
peg::parser!{ grammar abc() for str {
    pub rule s() = &(a() "c") "a"+ b() ![_]
    rule a() = "a" a()? "b"
    rule b() = "b" b()? "c"
} }
peg::parser!{ grammar words() for str { #[no_eof] pub rule s() -> usize = w() pub rule all() -> Vec<usize> = w()* rule w() -> usize = %(alts)s } }
peg::parser!{ grammar lits() for str { %(lits)s } }
peg::parser!{ grammar litb() for [u8] { %(lits)s } }
peg::parser!{ grammar nest() for str { pub rule p() = "(" p()* ")" / "[" p()* "]" / quiet!{"<" p()* ">"} / &"{" "{" p()* "}" / !['(' | '[' | '<' | '{'] "x" } }
const WORDS: &[&str] = &[%(words)s];
const LITS: &[&str] = &[%(texts)s];
fn run(rng: &mut Rng) {
    for &n in DEPTHS {
        let t = |a: usize, b: usize, c: usize| "a".repeat(a) + &"b".repeat(b) + &"c".repeat(c);
        for (a, b, c) in [(n, n, n), (n + 1, n, n), (n, n + 1, n), (n, n, n + 1), (n, n + 1, n + 1), (n + 1, n + 1, n)] {
            eq("a^n b^n c^n", n, abc::s(&t(a, b, c)).is_ok(), a == b && b == c && a > 0);
        }
        // nested brackets of several kinds
        let mut open = String::new(); let mut close = Vec::new();
        for _ in 0..n { let k = rng.below(4); open.push(['(', '[', '<', '{'][k]); close.push([')', ']', '>', '}'][k]); }
        let right: String = close.iter().rev().collect();
        eq("nested brackets", n, nest::p(&(open.clone() + "xxx".get(..if n > 0 { 3 } else { 1 }).unwrap() + &right)).is_ok(), true);
        if n > 0 {
            let mut wrong: Vec<char> = right.chars().collect();
            let i = rng.below(n); wrong[i] = if wrong[i] == ')' { ']' } else { ')' };
            let wrong: String = wrong.into_iter().collect();
            eq("mismatched brackets", n, nest::p(&(open + "x" + &wrong)).is_ok(), false);
        }
    }
    // prioritised choice among hundreds of words: the first that is a prefix
    for k in 0..4000 {
        let s: String = (0..rng.below(12)).map(|_| if rng.pct(50) { 'a' } else { 'b' }).collect();
        eq("first alternative", k, words::s(&s).ok(), WORDS.iter().position(|w| s.starts_with(w)));
    }
    for k in 0..200 {
        let s: String = (0..rng.below(700)).map(|_| if rng.pct(50) { 'a' } else { 'b' }).collect();
        let (mut v, mut p) = (vec![], 0);
        while let Some(i) = WORDS.iter().position(|w| s[p..].starts_with(w)) { v.push(i); p += WORDS[i].len(); }
        eq("words", k, words::all(&s).ok(), if p == s.len() { Some(v) } else { None });
    }
    // long literals: equal, cut short, changed at one place, extended
    type P = fn(&str) -> bool; type B = fn(&[u8]) -> bool;
    let ps: &[(P, B)] = &[%(calls)s];
    for (l, (p, b)) in LITS.iter().zip(ps) {
        let n = l.len();
        eq("literal", n, p(l), true); eq("byte literal", n, b(l.as_bytes()), true);
        eq("literal and more", n, p(&format!("{}a", l)), false);
        let mut cuts: Vec<usize> = l.char_indices().map(|c| c.0).collect();
        for c in cuts.iter().rev().take(5).chain(cuts.iter().take(3)) {
            eq("part of a literal", n, p(&l[..*c]), false);
            let changed: String = l.char_indices().map(|(i, x)| if i == *c { if x == 'q' { 'r' } else { 'q' } } else { x }).collect();
            eq("changed literal", n, p(&changed), false);
        }
        for i in (0..n).rev().take(9).chain((0..n).step_by(7)) {
            let mut v = l.as_bytes().to_vec();
            eq("part of a byte literal", n, b(&v[..i]), false);
            v[i] ^= 1 << rng.below(8);
            eq("changed byte literal", n, b(&v), false);
        }
    }
}
""" % dict(alts=" / ".join("%s {%d}" % (q(w), i) for i, w in enumerate(words)), words=",".join(q(w) for w in words), texts=",".join(q(l) for l in lits),
           lits=" ".join("pub rule l%d() = %s" % (i, q(l)) for i, l in enumerate(lits)),
           calls=",".join("(|s| lits::l%d(s).is_ok(), |s| litb::l%d(s).is_ok())" % (i, i) for i in range(len(lits))))


def c02(rng):
    k = 60
    return """
peg::parser!{ grammar g() for str {
    rule n() -> u32 = c:['0'..='9'] { c as u32 - 48 }
    pub rule list() -> Vec<u32> = n()*
    pub rule sum() -> u64 = v:n()* { v.iter().enumerate().map(|(i, n)| (i as u64 + 1) * *n as u64).sum() }
    pub rule pairs() -> Vec<(u32, Option<char>)> = v:(a:n() b:['a'..='z']? { (a, b) })* { v }
    pub rule slices() -> Vec<&'input str> = $(['0'..='9']+ / ['a'..='z']+)*
    pub rule whole() -> (usize, &'input str, usize) = b:position!() s:$([_]*) e:position!() { (b, s, e) }
    pub rule deep() -> Vec<u32> = "(" v:deep() n:n() ")" { let mut v = v; v.push(n); v } / "" { vec![] }
    pub rule right() -> usize = n() r:right() { r + 1 } / { 0 }
    pub rule many() -> Vec<u32> = %s { vec![%s] }
    pub rule grid() -> Vec<Vec<u32>> = (n()*) ** "\\n"
    rule own() -> Own = n:n() { Own::new(n) }
    pub rule owned() -> Vec<Own> = v:own()* "!" { v } / v:own()* "?" { v }
} }
thread_local!{ static LIVE: Cell<i64> = Cell::new(0); }
pub struct Own(u32);
impl Own { fn new(n: u32) -> Own { LIVE.with(|l| l.set(l.get() + 1)); Own(n) } }
impl Drop for Own { fn drop(&mut self) { LIVE.with(|l| l.set(l.get() - 1)) } }
impl std::fmt::Debug for Own { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { self.0.fmt(f) } }
fn run(rng: &mut Rng) {
    for &n in SIZES {
        let d: Vec<u32> = (0..n).map(|_| rng.below(10) as u32).collect();
        let s: String = d.iter().map(|d| (48 + *d as u8) as char).collect();
        eq("list", n, g::list(&s), Ok(d.clone()));
        eq("sum", n, g::sum(&s), Ok(d.iter().enumerate().map(|(i, n)| (i as u64 + 1) * *n as u64).sum()));
        let o: Vec<(u32, Option<char>)> = d.iter().map(|d| (*d, if rng.pct(40) { Some((97 + rng.below(26) as u8) as char) } else { None })).collect();
        let t: String = o.iter().map(|(n, c)| format!("{}{}", n, c.map_or(String::new(), |c| c.to_string()))).collect();
        eq("pairs", n, g::pairs(&t), Ok(o));
        let mut runs: Vec<&str> = vec![]; let mut b = 0;
        for i in 1..=t.len() { if i == t.len() || t.as_bytes()[i].is_ascii_digit() != t.as_bytes()[b].is_ascii_digit() { runs.push(&t[b..i]); b = i; } }
        eq("slices", n, g::slices(&t), Ok(runs));
        eq("whole", n, g::whole(&t), Ok((0, &t[..], t.len())));
        let mut rows: Vec<Vec<u32>> = vec![vec![]]; let mut u = String::new();
        for x in &d { if rng.pct(10) { rows.push(vec![]); u.push('\\n'); } rows.last_mut().unwrap().push(*x); u.push((48 + *x as u8) as char); }
        eq("grid", n, g::grid(&u), Ok(rows));
        let v = g::owned(&(s.clone() + "?"));
        eq("owned values", n, (v.as_ref().map(|v| v.iter().map(|o| o.0).collect::<Vec<_>>()).ok(), LIVE.with(|l| l.get())), (Some(d.clone()), n as i64));
        drop(v);
        eq("dropped values", n, (LIVE.with(|l| l.get()), g::owned(&(s.clone() + "-")).is_err(), LIVE.with(|l| l.get())), (0, true, 0));
    }
    for &n in DEPTHS {
        let d: Vec<u32> = (0..n).map(|_| rng.below(10) as u32).collect();
        let mut s = "(".repeat(n); for x in &d { s.push((48 + *x as u8) as char); s.push(')'); }
        eq("deep", n, g::deep(&s), Ok(d));
        eq("right", n, g::right(&"7".repeat(n)), Ok(n));
    }
    for k in 0..50 {
        let d: Vec<u32> = (0..%d).map(|_| rng.below(10) as u32).collect();
        let s: String = d.iter().map(|d| (48 + *d as u8) as char).collect();
        eq("many labels", k, g::many(&s), Ok(d));
    }
}
""" % (" ".join("m%d:n()" % i for i in range(k)), ",".join("m%d" % i for i in range(k)), k)


def c03(rng):
    ns = [0, 1, 2, 3, 8, 16, 100, 127, 128, 255, 256, 257, 1000]
    exact = " ".join('pub rule x%d() -> usize = v:"a"*<%d> { v.len() } pub rule s%d() -> usize = v:"a"**<%d> "," { v.len() }' % (n, n, n, n) for n in ns)
    xs = ",".join("(%d, g::x%d as F, g::s%d as F)" % (n, n, n) for n in ns)
    return """
peg::parser!{ grammar g() for str {
    rule a() -> char = ['a'..='c']
    pub rule star() -> (usize, &'input str) = v:a()* r:$([_]*) { (v.len(), r) }
    pub rule unused() -> &'input str = a()* r:$([_]*) { r }
    pub rule plus() -> (usize, &'input str) = v:a()+ r:$([_]*) { (v.len(), r) }
    pub rule sep() -> (usize, &'input str) = v:a() ** "," r:$([_]*) { (v.len(), r) }
    pub rule sep1() -> (usize, &'input str) = v:a() ++ ("," " "?) r:$([_]*) { (v.len(), r) }
    pub rule range(lo: usize, hi: usize) -> (usize, &'input str) = v:a()*<{lo},{hi}> r:$([_]*) { (v.len(), r) }
    pub rule unused_range(lo: usize, hi: usize) -> &'input str = a()*<{lo},{hi}> r:$([_]*) { r }
    pub rule srange(lo: usize, hi: usize) -> (usize, &'input str) = v:a()**<{lo},{hi}> "," r:$([_]*) { (v.len(), r) }
    pub rule min(lo: usize) -> (usize, &'input str) = v:a()*<{lo},> r:$([_]*) { (v.len(), r) }
    pub rule max(hi: usize) -> (usize, &'input str) = v:a()*<,{hi}> r:$([_]*) { (v.len(), r) }
    pub rule exact(n: usize) -> (usize, &'input str) = v:a()*<{n}> r:$([_]*) { (v.len(), r) }
    pub rule counted() -> (usize, &'input str) = n:$(['0'..='9']+) ":" v:a()*<{n.parse().unwrap()}> r:$([_]*) { (v.len(), r) }
    %s
} }
type F = for<'a> fn(&'a str) -> Result<usize, peg::error::ParseError<peg::str::LineCol>>;
fn run(rng: &mut Rng) {
    let fs: &[(usize, F, F)] = &[%s];
    for &n in SIZES {
        let a: String = (0..n).map(|_| (97 + rng.below(3) as u8) as char).collect();
        let tail = ["", "x", ",", ",x", ",,a"][rng.below(5)];
        let t = a.clone() + tail;
        eq("star", n, g::star(&t), Ok((n, tail)));
        eq("unused star", n, g::unused(&t), Ok(tail));
        eq("plus", n, g::plus(&t).ok(), if n > 0 { Some((n, tail)) } else { None });
        let list = a.chars().map(|c| c.to_string()).collect::<Vec<_>>().join(",") + tail;
        let rest = if n == 0 { tail } else if tail.starts_with(",a") { "" } else { tail };
        eq("sep", n, g::sep(&list), Ok((n, rest)));
        eq("sep1", n, g::sep1(&list).ok(), if n > 0 { Some((n, rest)) } else { None });
        for _ in 0..6 {
            let lo = (n + rng.below(4)).saturating_sub(2); let hi = (n + rng.below(5)).saturating_sub(2);
            let lo = if rng.pct(30) { rng.below(n + 2) } else { lo }; let hi = if rng.pct(30) { rng.below(n + 2) } else { hi };
            // an unsatisfiable range matches nothing
            let k = n.min(hi);
            let want = if k >= lo { Some((k, &t[k..])) } else { None };
            eq("range", n, g::range(&t, lo, hi).ok(), want);
            eq("unused range", n, g::unused_range(&t, lo, hi).ok(), want.map(|w| w.1));
            eq("min", n, g::min(&t, lo).ok(), if n >= lo { Some((n, tail)) } else { None });
            eq("max", n, g::max(&t, hi).ok(), Some((k, &t[k..])));
            eq("exact", n, g::exact(&t, lo).ok(), if n >= lo { Some((lo, &t[lo..])) } else { None });
            eq("separated range", n, g::srange(&list, lo, hi).ok(), if k >= lo { Some((k, if k == n { rest } else if k == 0 { &list[..] } else { &list[2 * k - 1..] })) } else { None });
            let c = format!("{}:{}", lo, t);
            eq("counted", n, g::counted(&c).ok(), if n >= lo { Some((lo, &t[lo..])) } else { None });
        }
        for (k, x, s) in fs {
            if n > 1100 { continue }
            eq("literal count", *k, x(&"a".repeat(n)).ok(), if n == *k { Some(n) } else { None });
            eq("literal separated count", *k, s(&vec!["a"; n].join(",")).ok(), if n == *k { Some(n) } else { None });
        }
    }
}
""" % (exact, xs)


def c04(rng):
    return """
peg::parser!{ grammar g() for str {
    pub rule all() -> usize = v:"ab"* { v.len() }
    #[no_eof] pub rule some() -> usize = v:"ab"* { v.len() }
    #[no_eof] pub rule one() -> usize = v:"ab"+ { v.len() }
    pub rule nest() = "(" nest() ")" / "x"
    #[cache] pub rule cached() -> usize = v:"ab"* { v.len() }
    #[cache_left_rec] pub rule left() -> usize = n:left() "ab" { n + 1 } / "ab" { 1 }
    pub rule prec() -> usize = precedence!{ a:(@) "+" b:@ { a + b } -- "ab" { 1 } }
} }
peg::parser!{ grammar b() for [u8] { pub rule all() -> usize = v:"ab"* { v.len() } #[no_eof] pub rule some() -> usize = v:"ab"* { v.len() } } }
fn run(rng: &mut Rng) {
    for &n in SIZES {
        for tail in ["", "a", "b", " ", "\\n", "\\0", "\\u{e9}", "\\u{1f600}", "x", "\\r\\n", "\\u{feff}"] {
            let t = "ab".repeat(n) + tail;
            let want = if tail.is_empty() { Some(n) } else { None };
            eq("whole", n, g::all(&t).ok(), want);
            eq("whole bytes", n, b::all(t.as_bytes()).ok(), want);
            eq("prefix", n, g::some(&t).ok(), Some(n));
            eq("prefix bytes", n, b::some(t.as_bytes()).ok(), Some(n));
            eq("nonempty prefix", n, g::one(&t).ok(), if n > 0 { Some(n) } else { None });
            eq("cached", n, g::cached(&t).ok(), want);
            if n < 3000 { eq("left recursive", n, g::left(&t).ok(), if n > 0 { want } else { None }); }
            let p = vec!["ab"; n].join("+") + tail;
            eq("precedence", n, g::prec(&p).ok(), if n > 0 { want } else { None });
            if !tail.is_empty() {
                let o = match g::all(&t) { Err(e) => (e.location.offset, e.expected.tokens().any(|t| t == "EOF")), Ok(_) => (0, false) };
                eq("end of the match", n, o, (2 * n, true));
            }
        }
    }
    for &n in DEPTHS {
        let t = "(".repeat(n) + "x" + &")".repeat(n);
        eq("nested", n, g::nest(&t).is_ok(), true);
        eq("nested and more", n, g::nest(&(t + ")")).is_ok(), false);
    }
}
"""


def c05(rng):
    k = 300
    lens = [rng.randint(1, 900) for _ in range(k)]
    return """
peg::parser!{ grammar g() for str {
    pub rule list() = ("a" "b" / "a" "c")* "!"
    pub rule alts() = %(alts)s
    pub rule nested() = "(" nested() ")" / "x"
    pub rule quietly() = quiet!{ "a"* } &("b"* "c") "b"* "d"
    pub rule lines() = line()* "end"
    rule line() = ['a'..='z' | '\\u{e9}' | '\\u{1f600}']* "\\n"
} }
peg::parser!{ grammar b() for [u8] { pub rule list() = ("a" "b" / "a" "c")* "!" } }
const LENS: &[usize] = &[%(lens)s];
fn run(rng: &mut Rng) {
    for &n in SIZES {
        let t: String = (0..n).map(|_| if rng.pct(50) { "ab" } else { "ac" }).collect();
        for (tail, d) in [("", 0), ("a", 1), ("ad", 1), ("b", 0), ("ab", 2), ("!!", 1)] {
            eq("list", n, at(g::list(&(t.clone() + tail)), off).map(|e| e.0), Some(2 * n + d));
            eq("byte list", n, at(b::list((t.clone() + tail).as_bytes()), idx).map(|e| e.0), Some(2 * n + d));
        }
        let q = "a".repeat(n) + &"b".repeat(n) + "c";
        eq("after suppressed regions", n, at(g::quietly(&q), off).map(|e| e.0), Some(2 * n));
        // a text of many lines
        let mut t = String::new();
        for _ in 0..n { for _ in 0..rng.below(4) { t.push(['a', 'z', '\\u{e9}', '\\u{1f600}'][rng.below(4)]); } if rng.pct(70) { t.push('\\n') } }
        let t2 = t.clone() + "a#";
        eq("lines", n, at(g::lines(&t2), off).map(|e| e.0), Some(t2.len() - 1));
        let line = t2.matches('\\n').count() + 1; let col = t2[t2.rfind('\\n').map_or(0, |i| i + 1)..].chars().count();
        eq("line and column", n, g::lines(&t2).map_err(|e| (e.location.line, e.location.column)), Err((line, col)));
    }
    for &n in DEPTHS {
        let t = "(".repeat(n);
        eq("deep", n, at(g::nested(&t), off).map(|e| e.0), Some(n));
        eq("unclosed", n, at(g::nested(&(t.clone() + "x" + &")".repeat(n / 2))), off).map(|e| e.0), if n == 0 { None } else { Some(n + 1 + n / 2) });
        eq("wrong", n, at(g::nested(&(t.clone() + "x" + &")".repeat(n / 2) + "y")), off).map(|e| e.0), Some(n + 1 + n / 2));
    }
    // hundreds of alternatives that fail at different places, in random order
    let most = *LENS.iter().max().unwrap();
    for m in (0..most + 3).step_by(7).chain(LENS.iter().cloned()) {
        let t = "a".repeat(m) + "?";
        let far = LENS.iter().map(|l| *l.min(&m)).max().unwrap();
        eq("furthest alternative", m, at(g::alts(&t), off).map(|e| e.0), Some(far));
    }
}
""" % dict(alts=" / ".join('"a"*<%d> "!"' % n for n in lens), lens=",".join(map(str, lens)))


def c06(rng):
    n = 400
    toks = ["t%03d" % i for i in range(n)]
    rng.shuffle(toks)
    return """
peg::parser!{ grammar g() for str {
    pub rule all() = ("." / ",")* (%(all)s)
    pub rule seq() = %(seq)s "end"
    pub rule upto(n: usize) = %(upto)s
    rule pre(n: usize, i: usize) = quiet!{ "" {? if i < n { Ok(()) } else { Err("no") } } }
    pub rule nested() = "(" nested() ")" / "x"
} }
const TOKS: &[&str] = &[%(toks)s];
fn run(rng: &mut Rng) {
    let quoted: Vec<String> = TOKS.iter().map(|t| format!("\\"{}\\"", t)).collect();
    let mut sorted: Vec<&str> = quoted.iter().map(|s| &s[..]).collect(); sorted.sort();
    let mut first = sorted.clone(); first.push("\\".\\""); first.push("\\",\\""); first.sort();
    for &n in SIZES {
        let t: String = (0..n).map(|_| if rng.pct(50) { '.' } else { ',' }).collect::<String>() + "?";
        let e = g::all(&t).unwrap_err();
        let got: Vec<&str> = e.expected.tokens().collect();
        eq("hundreds of expectations", n, (e.location.offset, got), (n, first.clone()));
        eq("printed", n, e.to_string(), format!("error at 1:{}: expected one of {}", n + 1, first.join(", ")));
    }
    // optional parts in a row: whatever may come next
    for k in 0..TOKS.len() {
        let t: String = TOKS[..k].concat() + "?";
        let mut want: Vec<&str> = quoted[k..].iter().map(|s| &s[..]).collect(); want.push("\\"end\\""); want.sort();
        let r = at(g::seq(&t), off);
        eq("what may follow", k, r, Some((4 * k, want)));
    }
    for k in 0..=40 {
        let e = g::upto("", k).unwrap_err();
        let mut want: Vec<String> = (0..k).map(|i| format!("e{}", i)).collect(); want.sort();
        let text = match k { 0 => "<unreported>".to_string(), 1 => want[0].clone(), _ => format!("one of {}", want.join(", ")) };
        eq("number of expectations", k, e.expected.to_string(), text);
    }
    for &n in DEPTHS {
        eq("deep", n, at(g::nested(&"(".repeat(n)), off), Some((n, vec!["\\"(\\"", "\\"x\\""])));
        eq("closing", n, at(g::nested(&("(".repeat(n) + "x" + &")".repeat(n / 2) + "]")), off), Some((n + 1 + n / 2, vec![if n / 2 < n { "\\")\\"" } else { "EOF" }])));
    }
}
""" % dict(all=" / ".join('"%s"' % t for t in toks), seq=" ".join('"%s"?' % t for t in toks), toks=",".join('"%s"' % t for t in toks),
           upto=" / ".join('pre(n, %d) expected!("e%d")' % (i, i) for i in range(40)))


def c07(rng):
    return """
peg::parser!{ grammar g() for str {
    // suppressed regions nested as deep as the input says
    rule deep() = "q" quiet!{ deep() } / "l" &( deep() ) [_]* / "n" !( !( deep() ) ) [_]* / "s" $(quiet!{ deep() }) / "e" ("z" / "y")
    pub rule top() = quiet!{ deep() } ["!"] / "visible"
    rule rec() = "(" quiet!{ "a" / "b" } rec() ")" / "(" &("a" rec2()) "z" / "x"
    rule rec2() = "(" rec() ")" / "y"
    pub rule pairs() = pair()*  "end"
    rule pair() = quiet!{ "a" } &"b" !"c" "b" / "d"
    pub rule inside(n: usize) = quiet!{ "(" inner() } "?"
    rule inner() = "(" quiet!{ inner() } ")" / !"y" "x"
    // the way in is suppressed at every level, the way out is not
    pub rule out() = quiet!{ "(" } out() ")" / "x"
    pub rule mixed() = &( quiet!{ "(" } [_] ) "(" !( ")" ) mixed() ")" / quiet!{ "x" }
} }
fn run(rng: &mut Rng) {
    for &n in DEPTHS {
        for _ in 0..3 {
            let t: String = (0..n).map(|_| ['q', 'l', 'n', 's'][rng.below(4)]).collect::<String>();
            // whatever fails inside is hidden, and reporting is back afterwards
            eq("hidden", n, at(g::top(&(t.clone() + "ex")), off), Some((0, vec!["\\"visible\\""])));
            eq("hidden at the end", n, at(g::top(&(t + "e")), off), Some((0, vec!["\\"visible\\""])));
        }
        let b = "(".repeat(n + 1) + "x" + &")".repeat(n);
        eq("after", n, at(g::inside(&b, n), off), Some((b.len(), vec!["\\"?\\""])));
        eq("after a wrong one", n, at(g::inside(&(b.clone() + "!"), n), off), Some((b.len(), vec!["\\"?\\""])));
        for k in [0, n / 2, n.saturating_sub(1)] {
            let o = "(".repeat(n) + "x" + &")".repeat(k);
            eq("way out", n, at(g::out(&o), off), if k == n { None } else { Some((o.len(), vec!["\\")\\""])) });
            eq("mixed way out", n, at(g::mixed(&o), off), if k == n { None } else { Some((o.len(), vec!["\\")\\""])) });
        }
        let o = "(".repeat(n);
        eq("way in", n, at(g::out(&o), off), Some((n, vec!["\\"x\\""])));
    }
    for &n in SIZES {
        let t: String = (0..n).map(|_| if rng.pct(50) { "ab" } else { "d" }).collect();
        eq("regions in a row", n, at(g::pairs(&(t.clone() + "ac")), off), Some((t.len(), vec!["\\"d\\"", "\\"end\\""])));
        eq("regions in a row, then the end", n, at(g::pairs(&(t.clone() + "abc")), off), Some((t.len() + 2, vec!["\\"d\\"", "\\"end\\""])));
    }
}
""".replace('["!"]', "['!']").replace("\n    rule rec() = \"(\" quiet!{ \"a\" / \"b\" } rec() \")\" / \"(\" &(\"a\" rec2()) \"z\" / \"x\"\n    rule rec2() = \"(\" rec() \")\" / \"y\"", "")


def c08(rng):
    k = 60
    lv = []
    assoc = []
    for i in range(k):
        a = rng.random() < 0.5
        assoc.append(a)
        op = "\\u{%x}" % (0x3000 + i)
        lv.append(('x:(@) "%s" y:@' if a else 'x:@ "%s" y:(@)') % op + " { mix(%d, x, y) }" % i)
        if rng.random() < 0.3:
            lv[-1] += '\n "\\u{%x}" x:@ { mix(%d, x, 7) }' % (0x3100 + i, i)
            lv[-1] += '\n x:@ "\\u{%x}" { mix(%d, 9, x) }' % (0x3200 + i, i)
    pre = [('u{%x}' % (0x3100 + i)) in l for i, l in enumerate(lv)]
    return """
fn mix(i: u64, x: u64, y: u64) -> u64 { (x.wrapping_mul(0x9E3779B97F4A7C15).rotate_left(17) ^ y.wrapping_mul(0xC2B2AE3D27D4EB4F)).wrapping_add(i).wrapping_mul(0x165667B19E3779F9) }
peg::parser!{ grammar g() for str {
    pub rule e() -> u64 = precedence!{
        %(levels)s
        --
        n:$(['0'..='9']+) { n.parse::<u64>().unwrap() }
        "(" x:e() ")" { x }
    }
} }
const LEFT: &[bool] = &[%(assoc)s];
const PRE: &[usize] = &[%(pre)s];
// an independent operator-precedence parser (two stacks)
fn reference(t: &[char]) -> u64 {
    #[derive(Clone, Copy)] enum Op { Paren, Bin(usize), Pre(usize) }
    fn reduce(ops: &mut Vec<Op>, vals: &mut Vec<u64>) { match ops.pop().unwrap() {
        Op::Bin(i) => { let y = vals.pop().unwrap(); let x = vals.pop().unwrap(); vals.push(mix(i as u64, x, y)); }
        Op::Pre(i) => { let x = vals.pop().unwrap(); vals.push(mix(i as u64, x, 7)); }
        Op::Paren => unreachable!() } }
    let (mut ops, mut vals): (Vec<Op>, Vec<u64>) = (vec![], vec![]);
    let mut i = 0;
    while i < t.len() {
        let c = t[i] as usize;
        if t[i].is_ascii_digit() { let mut n = 0u64; while i < t.len() && t[i].is_ascii_digit() { n = n * 10 + t[i] as u64 - 48; i += 1; } vals.push(n); continue; }
        if t[i] == '(' { ops.push(Op::Paren) }
        else if t[i] == ')' { while !matches!(ops.last(), Some(Op::Paren)) { reduce(&mut ops, &mut vals) } ops.pop(); }
        else if c >= 0x3100 && c < 0x3200 { ops.push(Op::Pre(c - 0x3100)) }
        else {
            let (p, post) = if c >= 0x3200 { (c - 0x3200, true) } else { (c - 0x3000, false) };
            loop { match ops.last() {
                Some(Op::Bin(q)) if *q > p || (*q == p && (LEFT[p] || post) ) => {}
                Some(Op::Pre(q)) if *q >= p => {}
                _ => break }
                reduce(&mut ops, &mut vals) }
            if post { let x = vals.pop().unwrap(); vals.push(mix(p as u64, 9, x)); } else { ops.push(Op::Bin(p)) }
        }
        i += 1;
    }
    while !ops.is_empty() { reduce(&mut ops, &mut vals) }
    vals[0]
}
fn operand(rng: &mut Rng, s: &mut String, depth: usize) {
    if depth > 0 && rng.pct(15) { s.push('('); let n = rng.below(6); expr(rng, s, n, depth - 1, 100); s.push(')'); } else { s.push_str(&rng.below(1000).to_string()) }
}
/// binary operators in any order
fn expr(rng: &mut Rng, s: &mut String, n: usize, depth: usize, spread: usize) {
    let base = rng.below(LEFT.len());
    operand(rng, s, depth);
    for _ in 0..n { let i = (base + rng.below(spread.min(LEFT.len()))) %% LEFT.len(); s.push(char::from_u32(0x3000 + i as u32).unwrap()); operand(rng, s, depth); }
}
fn run(rng: &mut Rng) {
    for &n in DEPTHS {
        for spread in [1, 2, 5, 100] {
            let mut s = String::new(); expr(rng, &mut s, n, 3, spread);
            eq("operators", n, g::e(&s).ok(), Some(reference(&s.chars().collect::<Vec<_>>())));
        }
        let s = "(".repeat(n) + "1" + &")".repeat(n);
        eq("parentheses", n, g::e(&s).ok(), Some(1));
    }
    for &n in SIZES {
        for i in 0..LEFT.len() { if !LEFT[i] { continue } if n > 5000 && i > 8 { break }
            let mut s = String::from("1"); let mut v = 1;
            for k in 0..n { s.push(char::from_u32(0x3000 + i as u32).unwrap()); s.push('2'); v = mix(i as u64, v, 2); }
            eq("left associative chain", n, g::e(&s).ok(), Some(v));
        }
        if n < 5000 { for i in 0..LEFT.len() { if LEFT[i] { continue }
            let mut s = String::from("1"); let mut v = 1;
            for k in 0..n { s.insert_str(0, &format!("2{}", char::from_u32(0x3000 + i as u32).unwrap())); v = mix(i as u64, 2, v); if s.len() > 9000 { break } }
            eq("right associative chain", n, g::e(&s).ok(), Some(v));
        } }
    }
    // prefix and postfix operators bind by their level: only combinations that parse one way
    for &i in PRE { for j in 0..LEFT.len() { for _ in 0..3 {
        let (p, q, b) = (char::from_u32(0x3100 + i as u32).unwrap(), char::from_u32(0x3200 + i as u32).unwrap(), char::from_u32(0x3000 + j as u32).unwrap());
        let (x, y) = (rng.below(99) as u64, rng.below(99) as u64);
        let pre = |v| mix(i as u64, v, 7); let post = |v| mix(i as u64, 9, v); let bin = |x, y| mix(j as u64, x, y);
        // p x b y: the operand of a prefix operator takes what binds tighter
        eq("prefix, infix", i * 100 + j, g::e(&format!("{}{}{}{}", p, x, b, y)).ok(), Some(if j > i { pre(bin(x, y)) } else { bin(pre(x), y) }));
        eq("infix, postfix", i * 100 + j, g::e(&format!("{}{}{}{}", x, b, y, q)).ok(), Some(if i < j || (i == j && LEFT[j]) { post(bin(x, y)) } else { bin(x, post(y)) }));
        eq("postfix, infix", i * 100 + j, g::e(&format!("{}{}{}{}", x, q, b, y)).ok(), Some(bin(post(x), y)));
        let n = 1 + rng.below(40); let mut v = x; for _ in 0..n { v = post(v) }
        eq("postfix chain", n, g::e(&(x.to_string() + &q.to_string().repeat(n))).ok(), Some(v));
    } } }
}
""" % dict(levels="\n        --\n        ".join(lv), assoc=",".join("true" if a else "false" for a in assoc), pre=",".join(str(i) for i, p in enumerate(pre) if p))


def c09(rng):
    depth = 36
    chain = ["#[cache] rule c%d() -> u64 = t() a:c%d() \"x\" { a * 3 + 1 } / a:c%d() \"y\" { a * 3 + 2 } / a:c%d() { a * 3 }" % (i, i + 1, i + 1, i + 1) for i in range(depth)]
    return """
peg::parser!{ grammar g() for str {
    rule t() = "" {? if tick() { Ok(()) } else { Err("never") } }
    // without memoisation this takes 3^%(d)d steps
    pub rule start() -> u64 = c0()
    %(chain)s
    #[cache] rule c%(d)d() -> u64 = t() "n" { 1 }
    // every position once
    pub rule scan() -> usize = a:tail() "!" { a } / a:tail() "?" { a + 1 } / a:tail() { a + 2 }
    #[cache] rule tail() -> usize = t() ['a'..='z'] n:tail() { n + 1 } / "" { 0 }
    #[cache] rule word() -> &'input str = t() s:$(['a'..='z']+ " ") { s }
    pub rule twice() -> usize = v:(&(word() word()) w:word() { w } / w:word() &"." { w } / w:word() { w })* "." { v.len() }
    pub rule plain() -> usize = v:(&(word2() word2()) w:word2() { w } / w:word2() &"." { w } / w:word2() { w })* "." { v.len() }
    rule word2() -> &'input str = t() s:$(['a'..='z']+ " ") { s }
    // every position, and then every position again, in several orders
    #[cache] rule digit() -> u32 = t() c:['0'..='9'] { c as u32 - 48 }
    pub rule again() -> (u32, usize) = digit()* "." { (0, 0) } / &(digit()* "!") v:digit()* "!" { (v.iter().sum(), v.len()) } / v:(&digit() d:digit() { d })* "?" { (v.iter().sum(), v.len()) }
    #[cache_left_rec] rule left() -> usize = a:left() t() c:['a'..='z'] { a + 1 } / t() ['a'..='z'] { 1 }
    pub rule lefts() -> usize = a:left() "." { a } / a:left() "!" { a + 1 } / "" a:left() "?" { a + 2 }
} }
fn run(rng: &mut Rng) {
    for _ in 0..60 {
        let k = rng.below(%(d)d + 1);
        let s: String = "n".to_string() + &(0..k).map(|_| if rng.pct(50) { 'x' } else { 'y' }).collect::<String>();
        // the deepest rules take the letters, in order; the others take none
        let mut v = 1u64; for c in s[1..].chars() { v = v.wrapping_mul(3).wrapping_add(if c == 'x' { 1 } else { 2 }); }
        for _ in k..%(d)d { v = v.wrapping_mul(3); }
        eq("memoised chain", k, g::start(&s).ok(), Some(v));
        eq("each rule of the chain once", k, ticks() <= %(d)d + 1, true);
        let e = at(g::start(&(s.clone() + "z")), off);
        let used = ticks();
        eq("location behind memoised rules", k, e.map(|e| e.0), Some(s.len()));
        eq("evaluations stay linear", k, used <= 2 * (%(d)d + 1) * 3, true);
    }
    for &n in SIZES {
        let s: String = (0..n).map(|_| (48 + rng.below(10) as u8) as char).collect();
        let v: u32 = s.bytes().map(|b| b as u32 - 48).sum();
        for t in ["!", "?"] {
            ticks();
            eq("cached at every position", n, g::again(&(s.clone() + t)).ok(), Some((v, n)));
            eq("and evaluated there once", n, ticks() <= n as u64 + 1, true);
        }
        let r = at(g::again(&(s.clone() + "#")), off);
        eq("cached at every position, both passes", n, ticks() <= 2 * (n as u64 + 1), true);
        eq("error behind cached positions", n, r.map(|e| e.0), Some(n));
        if n > 0 && n < 20000 {
            let s = "q".repeat(n);
            ticks();
            for (k, t) in [(0, "."), (1, "!"), (2, "?")] {
                eq("grown once", n, g::lefts(&(s.clone() + t)).ok(), Some(n + k));
                eq("grown and not again", n, ticks() <= 2 * n as u64 + 2, true);
            }
        }
    }
    for &n in SIZES {
        let s: String = (0..n).map(|_| (97 + rng.below(26) as u8) as char).collect();
        for (t, v) in [("!", n), ("?", n + 1), ("", n + 2)] {
            eq("tail", n, g::scan(&(s.clone() + t)).ok(), Some(v));
            eq("each position once", n, ticks(), n as u64 + 1);
        }
        let mut w = String::new(); let mut m = 0;
        for _ in 0..n / 3 { for _ in 0..1 + rng.below(3) { w.push('w') } w.push(' '); m += 1; }
        w.push('.');
        eq("words", n, (g::twice(&w).ok(), ticks() <= 1 + m as u64 ), (Some(m), true));
        eq("uncached words", n, (g::plain(&w).ok(), ticks() >= m as u64), (Some(m), true));
        eq("words, same error", n, at(g::twice(&(w.clone() + "#")), off), at(g::plain(&(w.clone() + "#")), off));
        ticks();
    }
}
""" % dict(d=depth, chain="\n    ".join(chain))


def c10(rng):
    return """
fn mix(i: u64, x: u64, y: u64) -> u64 { (x.wrapping_mul(0x9E3779B97F4A7C15).rotate_left(17) ^ y.wrapping_mul(0xC2B2AE3D27D4EB4F)).wrapping_add(i).wrapping_mul(0x165667B19E3779F9) }
peg::parser!{ grammar g() for str {
    pub rule sum() -> u64 = e()
    #[cache_left_rec] rule e() -> u64 = a:e() "+" b:m() { mix(1, a, b) } / a:e() "-" b:m() { mix(2, a, b) } / m()
    #[cache_left_rec] rule m() -> u64 = a:m() "*" b:n() { mix(3, a, b) } / a:m() "/" b:n() { mix(4, a, b) } / n()
    #[cache] rule n() -> u64 = d:$(['0'..='9']+) { d.parse().unwrap() } / "(" x:e() ")" { x }
    #[cache_left_rec] pub rule list() -> usize = l:list() "," "a" { l + 1 } / "a" { 1 }
    #[cache_left_rec] pub rule post() -> u64 = a:post() "." ['a'..='z']+ { mix(5, a, 0) } / a:post() "[" i:sum() "]" { mix(6, a, i) } / a:post() "!" { mix(7, a, 0) } / d:$(['0'..='9']+) { d.parse().unwrap() }
    #[cache_left_rec] pub rule right() -> u64 = a:right() "^" b:right() { mix(8, a, b) } / d:$(['0'..='9']) { d.parse().unwrap() }
} }
fn operand(rng: &mut Rng, s: &mut String, depth: usize) -> u64 {
    if depth > 0 && rng.pct(20) { s.push('('); let n = rng.below(4); let v = expr(rng, s, n, depth - 1); s.push(')'); v } else { let v = rng.below(1000) as u64; s.push_str(&v.to_string()); v }
}
fn expr(rng: &mut Rng, s: &mut String, n: usize, depth: usize) -> u64 {
    // a sum of products
    let mut sum = None; let mut op = 0; let mut left = n + 1;
    while left > 0 {
        let k = 1 + rng.below(left.min(4)); left -= k;
        let mut v = operand(rng, s, depth);
        for _ in 1..k { let o = rng.below(2); s.push(['*', '/'][o]); let b = operand(rng, s, depth); v = mix(3 + o as u64, v, b); }
        sum = Some(match sum { None => v, Some(a) => mix(1 + op as u64, a, v) });
        if left > 0 { op = rng.below(2); s.push(['+', '-'][op]); }
    }
    sum.unwrap()
}
fn run(rng: &mut Rng) {
    for &n in SIZES {
        for d in 0..if n > 5000 { 1 } else { 4 } {
            let mut s = String::new(); let v = expr(rng, &mut s, n, d);
            eq("left associative", n, g::sum(&s).ok(), Some(v));
            eq("error", n, at(g::sum(&(s.clone() + "+")), off).map(|e| e.0), Some(s.len() + 1));
            eq("error after", n, at(g::sum(&(s.clone() + "#")), off).map(|e| e.0), Some(s.len()));
        }
        eq("list", n, g::list(&vec!["a"; n].join(",")).ok(), if n > 0 { Some(n) } else { None });
        let mut s = String::from("7"); let mut v = 7;
        for _ in 0..n { match rng.below(3) { 0 => { s.push_str(".ab"); v = mix(5, v, 0) } 1 => { s.push_str("[1+2]"); v = mix(6, v, mix(1, 1, 2)) } _ => { s.push('!'); v = mix(7, v, 0) } } }
        eq("suffixes", n, g::post(&s).ok(), Some(v));
        if n < 300 {
            // a rule that is left and right recursive leans to the right
            let d: Vec<u64> = (0..n + 1).map(|_| rng.below(10) as u64).collect();
            let s = d.iter().map(|d| d.to_string()).collect::<Vec<_>>().join("^");
            let mut v = d[n]; for x in d[..n].iter().rev() { v = mix(8, *x, v) }
            eq("left and right recursive", n, g::right(&s).ok(), Some(v));
        }
    }
    for &n in DEPTHS {
        eq("nested", n, g::sum(&("(".repeat(n) + "5" + &")".repeat(n))).ok(), Some(5));
        let mut s = String::from("1"); let mut v = 1;
        for _ in 0..n.min(600) { s = format!("({}+2)", s); v = mix(1, v, 2); }
        eq("nested left", n, g::sum(&s).ok(), Some(v));
    }
}
"""


def c11(rng):
    k = 40
    chain = " ".join('rule t%d(x: rule<u64>, n: u64) -> u64 = %s' % (i, ['a:t%d(<x()>, n + 1) { a * 2 }', '"<" a:t%d(<"." b:x() { b + n }>, n) ">" { a + n }', 'a:t%d(<b:x() { b ^ n }>, n * 2) { a }'][i % 3] % (i + 1)) for i in range(k))
    many = ", ".join("p%d: u64" % i for i in range(30))
    return """
peg::parser!{ grammar g(base: u64) for str {
    rule d() -> u64 = c:['0'..='9'] { c as u64 - 48 }
    pub rule top(n: u64) -> u64 = t0(<d()>, n)
    %(chain)s
    rule t%(k)d(x: rule<u64>, n: u64) -> u64 = a:x() b:x() { a * 10 + b + n + base }
    // recursion with a counter
    rule down(n: usize) -> usize = "a" r:down(n.wrapping_sub(1)) { r + n } / "b" { n }
    pub rule count(n: usize) -> usize = down(n)
    rule list(x: rule<u64>, sep: rule<()>) -> Vec<u64> = x() ** (sep())
    rule both(x: rule<u64>, y: rule<u64>) -> Vec<u64> = (x() / y())*
    pub rule lists() -> Vec<Vec<u64>> = list(<d()>, <",">) ++ ";"
    pub rule evens() -> Vec<u64> = both(<c:['0'|'2'|'4'|'6'|'8'] { c as u64 - 48 }>, <d() d:d() { d + 100 }>)
    rule many(%(many)s) -> Vec<u64> = "m" { vec![%(names)s] }
    pub rule lots() -> Vec<u64> = many(%(args)s)
    rule indent(n: usize) -> usize = " "*<{n}> "-" r:(line(n)*) { r.len() }
    rule line(n: usize) -> usize = "\\n" k:indent(n + 1) { k }
    pub rule tree() -> usize = indent(0)
} }
fn run(rng: &mut Rng) {
    for n in 0..200u64 {
        let (a, b, base) = (rng.below(10) as u64, rng.below(10) as u64, rng.below(1000) as u64);
        // what the chain of templates substitutes
        let mut ns = vec![n]; for i in 0..%(k)d { let l = *ns.last().unwrap(); ns.push(match i %% 3 { 0 => l.wrapping_add(1), 1 => l, _ => l.wrapping_mul(2) }); }
        let x = |mut v: u64| { for i in 0..%(k)d { match i %% 3 { 1 => v = v + ns[i], 2 => v = v ^ ns[i], _ => {} } } v };
        let dots: String = ".".repeat((0..%(k)d).filter(|i| i %% 3 == 1).count());
        let mut v = x(a) * 10 + x(b) + ns[%(k)d] + base;
        for i in (0..%(k)d).rev() { v = match i %% 3 { 0 => v * 2, 1 => v + ns[i], _ => v } }
        let s = "<".repeat(dots.len()) + &format!("{}{}{}{}", dots, a, dots, b) + &">".repeat(dots.len());
        eq("chain of templates", n as usize, g::top(&s, base, n).ok(), Some(v));
        eq("chain of templates, cut short", n as usize, at(g::top(&s[..s.len() - 1], base, n), off).map(|e| e.0), Some(s.len() - 1));
    }
    for &n in DEPTHS {
        let mut v = 0usize; for i in 0..=n { v = v.wrapping_add(i) }
        eq("counter", n, g::count(&("a".repeat(n) + "b"), 0, n).ok(), Some(v));
        let mut t = String::new(); for i in 0..n.min(200) + 1 { if i > 0 { t.push('\\n') } t += &" ".repeat(i); t.push('-'); }
        eq("indentation", n, g::tree(&t, 0).ok(), Some(if n > 0 { 1 } else { 0 }));
        eq("wrong indentation", n, at(g::tree(&(t.clone() + "\\n -#"), 0), off).map(|e| e.0), Some(if n >= 1 { t.len() + 3 } else { 3 + t.len() }));
    }
    for &n in SIZES { if n > 5000 { continue }
        let v: Vec<Vec<u64>> = (0..n.max(1)).map(|_| (0..rng.below(5)).map(|_| rng.below(10) as u64).collect()).collect();
        let s = v.iter().map(|l| l.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")).collect::<Vec<_>>().join(";");
        eq("lists", n, g::lists(&s, 0).ok(), Some(v));
        let (mut s, mut v) = (String::new(), vec![]);
        for _ in 0..n { if rng.pct(50) { let d = 2 * rng.below(5) as u64; s += &d.to_string(); v.push(d) } else { let d = rng.below(10) as u64; s += &format!("{}{}", 1 + 2 * rng.below(5), d); v.push(d + 100) } }
        eq("two rules", n, g::evens(&s, 0).ok(), Some(v));
    }
    eq("many parameters", 30, g::lots("m", 5).ok(), Some((0..30).map(|i| i * 7 + 5).collect::<Vec<u64>>()));
}
""" % dict(k=k, chain=chain, many=many, names=",".join("p%d" % i for i in range(30)), args=", ".join("%d + base" % (i * 7) for i in range(30)))


def c17(rng):
    return """
/// positions start at BASE and are STEP apart
pub struct Far(Vec<char>);
const BASE: usize = usize::MAX / 2 + 7; const STEP: usize = 3;
impl Far { fn i(&self, p: usize) -> usize { assert!(p >= BASE && (p - BASE) % STEP == 0 && (p - BASE) / STEP <= self.0.len(), "position {} was never handed out", p); (p - BASE) / STEP } }
impl peg::Parse for Far { type PositionRepr = usize; fn start(&self) -> usize { BASE } fn is_eof(&self, p: usize) -> bool { self.i(p) == self.0.len() } fn position_repr(&self, p: usize) -> usize { self.i(p) } }
impl<'i> peg::ParseElem<'i> for Far { type Element = char; fn parse_elem(&'i self, p: usize) -> peg::RuleResult<char> { match self.0.get(self.i(p)) { Some(c) => peg::RuleResult::Matched(p + STEP, *c), None => peg::RuleResult::Failed } } }
impl peg::ParseLiteral for Far { fn parse_string_literal(&self, p: usize, l: &str) -> peg::RuleResult<()> { let i = self.i(p); let l: Vec<char> = l.chars().collect(); if self.0[i..].starts_with(&l) { peg::RuleResult::Matched(p + STEP * l.len(), ()) } else { peg::RuleResult::Failed } } }
impl<'i> peg::ParseSlice<'i> for Far { type Slice = String; fn parse_slice(&'i self, a: usize, b: usize) -> String { assert!(a <= b); self.0[self.i(a)..self.i(b)].iter().collect() } }
macro_rules! g { ($m:ident, $t:ty, $e:ty, $lo:expr, $hi:expr, $open:expr) => { peg::parser!{ pub grammar $m() for $t {
    pub rule list() -> (usize, usize) = v:item() ** (",") r:rest() { (v.len(), r) }
    rule item() -> usize = [x if x >= $lo && x <= $hi] n:["0"]? { 1 } / "(" v:list() ")" { v.0 }
    rule rest() -> usize = v:"!"* { v.len() }
} } } }
peg::parser!{ pub grammar s() for str { RULES } }
peg::parser!{ pub grammar f() for Far { RULES } }
peg::parser!{ pub grammar b() for [u8] { BRULES } }
peg::parser!{ pub grammar c() for [char] { CRULES } }
fn run(rng: &mut Rng) {
    for &n in SIZES {
        for k in 0..3 {
            let mut t = String::new(); let mut depth = 0usize;
            for _ in 0..n { match rng.below(7) { 0 if depth < 50 => { t.push('('); depth += 1 } 1 if depth > 0 => { t.push(')'); depth -= 1 } 2 | 3 => t.push(','), 4 => t.push('!'), _ => t.push((97 + rng.below(26) as u8) as char) } }
            for _ in 0..(if k == 0 { 0 } else { depth }) { t.push(')') }
            let t = if k == 2 { (0..n).map(|i| if i % 2 == 0 { 'q' } else { ',' }).collect() } else { t };
            let v: Vec<char> = t.chars().collect();
            let w = |r: Result<(usize, usize, usize), (usize, Vec<String>)>| r;
            let a = s::list(&t).map_err(|e| (e.location.offset, toks(&e.expected)));
            let x = f::list(&Far(v.clone())).map_err(|e| (e.location, toks(&e.expected)));
            let y = b::list(t.as_bytes()).map_err(|e| (e.location, toks(&e.expected)));
            let z = c::list(&v[..]).map_err(|e| (e.location, toks(&e.expected)));
            eq("custom input", n, x, a.clone()); eq("bytes", n, y, a.clone()); eq("slice of char", n, z, a);
        }
    }
}
fn toks(e: &peg::error::ExpectedSet) -> Vec<String> { let mut v: Vec<String> = e.tokens().map(|t| t.chars().filter(|c| *c != 'b' && *c != '\\'' && *c != '"' && *c != '[' && *c != ']' && *c != ' ').collect()).collect(); v.sort(); v }
""".replace("""macro_rules! g { ($m:ident, $t:ty, $e:ty, $lo:expr, $hi:expr, $open:expr) => { peg::parser!{ pub grammar $m() for $t {
    pub rule list() -> (usize, usize) = v:item() ** (",") r:rest() { (v.len(), r) }
    rule item() -> usize = [x if x >= $lo && x <= $hi] n:["0"]? { 1 } / "(" v:list() ")" { v.0 }
    rule rest() -> usize = v:"!"* { v.len() }
} } } }
""", "").replace("BRULES", R17.replace("'a'..='z'", "b'a'..=b'z'")).replace("CRULES", R17L).replace("RULES", R17)


R17 = """
    pub rule list() -> (usize, usize, usize) = v:item() ** "," r:$("!"*) p:position!() { (v.iter().sum(), v.len(), if r.is_empty() { 0 } else { 1 }) }
    rule item() -> usize = "x" "y"? "z"* { 3 } / ['a'..='z']+ !"(" { 1 } / "(" v:list() ")" { v.0 + 1 } / &"!" { 5 }
"""
R17L = """
    pub rule list() -> (usize, usize, usize) = v:item() ** [','] r:$(['!']*) p:position!() { (v.iter().sum(), v.len(), if r.is_empty() { 0 } else { 1 }) }
    rule item() -> usize = ['x'] ['y']? ['z']* { 3 } / ['a'..='z']+ !['('] { 1 } / ['('] v:list() [')'] { v.0 + 1 } / &['!'] { 5 }
"""


def c18(rng):
    return """
peg::parser!{ grammar g() for str { pub rule stop() = (!"#" [_])* "end" pub rule marks() -> Vec<(usize, char)> = (p:position!() c:[_] { (p, c) })* pub rule cuts() -> Vec<&'input str> = $([^'\\n']* "\\n" / [^'\\n']+)* } }
fn run(rng: &mut Rng) {
    const CH: &[char] = &['a', '\\t', '\\r', '\\n', '\\u{0}', '\\u{7f}', '\\u{80}', '\\u{e9}', '\\u{7ff}', '\\u{800}', '\\u{2028}', '\\u{85}', '\\u{b}', '\\u{c}', '\\u{301}', '\\u{feff}', '\\u{fffd}', '\\u{ffff}', '\\u{10000}', '\\u{1f600}', '\\u{10ffff}', '\\u{d7ff}', '\\u{e000}'];
    for &n in SIZES {
        for k in 0..6 {
            // few or many line breaks, so that lines, columns and both are large
            let nl = [0, 1, 5, 50, 100, 25][k];
            let s: String = (0..n).map(|_| if rng.pct(nl) { '\\n' } else if k == 5 { ['a', '\\u{1f600}'][rng.below(2)] } else { CH[rng.below(CH.len())] }).collect();
            let t = s.clone() + "#" + if rng.pct(50) { "\\n" } else { "" };
            let e = g::stop(&t).unwrap_err().location;
            let (mut line, mut col) = (1, 1);
            for c in s.chars() { if c == '\\n' { line += 1; col = 1 } else { col += 1 } }
            eq("location", n, (e.line, e.column, e.offset, e.to_string()), (line, col, s.len(), format!("{}:{}", line, col)));
            if n < 5000 || k < 2 {
                eq("positions", n, g::marks(&s).ok(), Some(s.char_indices().collect::<Vec<_>>()));
                eq("slices", n, g::cuts(&s).ok(), Some(s.split_inclusive('\\n').collect::<Vec<_>>()));
            }
        }
    }
}
"""


def c19(rng):
    return """
peg::parser!{ grammar g() for str {
    pub rule list() -> Vec<u32> = v:num() ** "," { v }
    #[cache] rule num() -> u32 = n:$(['0'..='9']+) {? n.parse().map_err(|_| "u32") } / "(" v:list() ")" { v.iter().sum() }
    #[cache_left_rec] pub rule sum() -> u32 = a:sum() "+" b:num() { a.wrapping_add(b) } / num()
    pub rule quietly() = quiet!{ "a" / "\\n" / &"b" "b" !"c" }* "end"
    pub rule inner() -> usize = s:$([^';']*) ";" {? match list(s) { Ok(v) => Ok(v.len()), Err(_) => Err("list") } } / s:$([^';']*) "." { s.len() }
} }
peg::parser!{ grammar b() for [u8] { #[cache] rule n() -> u8 = [b'0'..=b'9'] pub rule list() -> Vec<u8> = v:n() ** "," { v } } }
fn show<T: Debug, L: Debug + std::fmt::Display>(r: Result<T, peg::error::ParseError<L>>) -> String { format!("{:?}", r) }
fn text(rng: &mut Rng) -> String { let n = rng.below(14); (0..n).map(|_| ['1', '2', '3', ',', '+', '(', ')', 'a', 'b', 'c', ';', '.', 'e', '\\n'][rng.below(14)]).collect() }
fn all(t: &str) -> [String; 5] { [show(g::list(t)), show(g::sum(t)), show(g::quietly(t)), show(g::inner(t)), show(b::list(t.as_bytes()))] }
fn run(rng: &mut Rng) {
    // the first answers, each from a thread of its own
    let texts: Vec<String> = (0..300).map(|_| text(rng)).chain(["1,2", "(1,2)", "1+(2,3)+4", "aab", "1,2;", "1,,2;", "abend", "a\\nb\\n1", "\\n\\nab1,"].iter().map(|s| s.to_string())).collect();
    let first: Vec<[String; 5]> = texts.iter().map(|t| { let t = t.clone(); std::thread::spawn(move || all(&t)).join().unwrap() }).collect();
    // and after any number of calls on one thread
    for k in 0..@CALLS@ { let i = rng.below(texts.len()); eq("a later call", k, all(&texts[i]), first[i].clone()); }
    // one buffer, filled again and again; parts of one text; results held while others are computed
    let mut buf = String::with_capacity(4096);
    let mut held = vec![];
    for k in 0..@CALLS@ / 7 {
        let i = rng.below(texts.len());
        buf.clear(); buf.push_str(&texts[i]);
        eq("a filled-again buffer", k, all(&buf), first[i].clone());
        if k % 50 == 0 { held.push((i, g::list(&buf), g::sum(&buf), g::quietly(&buf))); }
    }
    let mut whole = String::new(); let mut spans = vec![];
    for (i, t) in texts.iter().enumerate() { spans.push((i, whole.len(), whole.len() + t.len())); whole.push_str(t); }
    for k in 0..@CALLS@ / 7 { let (i, a, b) = spans[rng.below(spans.len())]; eq("part of a text", k, all(&whole[a..b]), first[i].clone()); }
    // the same address, ending earlier or later
    for k in 0..2000 { let i = rng.below(whole.len() - 20); let j = i + rng.below(20); let own = whole[i..j].to_string(); eq("a text that ends elsewhere", k, all(&whole[i..j]), std::thread::spawn(move || all(&own)).join().unwrap()); }
    for (k, (i, a, b, c)) in held.into_iter().enumerate() { eq("a held result", k, [show(a), show(b), show(c)].to_vec(), first[i][..3].to_vec()); }
    // many threads at once
    let shared = std::sync::Arc::new((texts, first));
    let ts: Vec<_> = (0..48).map(|k| { let s = shared.clone(); let mut r = Rng(rng.next() | 1); std::thread::spawn(move || { let mut bad = vec![]; for _ in 0..400 { let i = r.below(s.0.len()); let a = all(&s.0[i]); if a != s.1[i] { bad.push((s.0[i].clone(), a)) } } bad }) }).collect();
    for (k, t) in ts.into_iter().enumerate() { eq("a call among many threads", k, t.join().unwrap(), vec![]); }
}
""".replace("@CALLS@", "400000" if THOROUGH else "70000")


SECTIONS = {"C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06, "C07": c07, "C08": c08, "C09": c09, "C10": c10, "C11": c11, "C17": c17, "C18": c18, "C19": c19}


def check(chk, peg):
    """Adds the large cases of the property to its check."""
    make = SECTIONS.get(chk.prop)
    if not make:
        return
    for k in range(3 if THOROUGH else 1):
        rng = random.Random(SEED * 31337 + k)
        head = HEAD.replace("@EXTRAD@", ", 5000, 20000" if THOROUGH else "").replace("@EXTRA@", ", 131072, 1000000" if THOROUGH else "")
        text = head + make(rng)
        src = os.path.join(chk.dir, "scale-%d.rs" % k)
        open(src, "w").write(text)
        x = rustc(src, src[:-3], peg.ext, peg.toolchain, ("-C", "opt-level=1", "-C", "debuginfo=0", "-C", "overflow-checks=on"))
        if x.rc == 1 and not x.timed_out:
            chk.violation("a large grammar does not compile: %s" % engine.first_error(x.err), {"program.rs": text, "rustc.txt": x.err[-6000:]})
            return
        if x.rc != 0:
            chk.notes.append("rustc ended with %s on the large cases: %s" % (x.rc, x.err[-300:]))
            return
        y = run([src[:-3], str(SEED * 7 + k)], timeout=600, cpu=600, mem_gb=16)
        n = sum(int(l.split()[2]) for l in y.out.splitlines() if l.startswith("STAT checks "))
        bad = [l[4:] for l in y.out.splitlines() if l.startswith("BAD ")]
        chk.add("large_cases", n)
        for b in bad[:4]:
            chk.violation("large cases: %s" % b[:600], {"program.rs": text, "stdout.txt": y.out[-20000:]})
        if not bad and (y.rc != 0 or not n):
            chk.violation("the large cases end with %s%s: %s" % (y.rc, " (time limit)" if y.timed_out else "", y.err[-600:]),
                          {"program.rs": text, "stdout.txt": y.out[-20000:], "stderr.txt": y.err[-20000:]})
        for f in (src, src[:-3]):
            if os.path.exists(f):
                os.remove(f)
