//! Custom primitives that send the parser anywhere: outside of the input, into the middle of a
//! character, backwards. The parser may panic or fail, but whatever it returns has to be part of
//! the input, and valid text. usage: wild SEED CASES   prints `STAT name n` and `BAD what`
#![allow(warnings)]
use peg::RuleResult;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

peg::parser!{ grammar on_str(to: &[usize]) for str {
    rule go(n: usize) = #{|_, _| RuleResult::Matched(to[n], ())}
    pub rule slice() -> &'input str = go(0) s:$(go(1)) go(2) { s }
    #[no_eof] pub rule slice_anywhere() -> &'input str = go(0) s:$(go(1)) { s }
    #[no_eof] pub rule elem() -> char = go(0) c:[_] { c }
    #[no_eof] pub rule elems() -> Vec<char> = go(0) c:[_]* { c }
    #[no_eof] pub rule lit() -> usize = go(0) "\u{e9}\n" p:position!() { p }
    pub rule fails() = go(0) expected!("x") / &(go(1) [_]) go(2) expected!("y")
    pub rule over() = go(0)
    #[no_eof] pub rule text() -> &'input str = $(go(0) ("\u{e9}\n" / [_])* go(1))
} }
peg::parser!{ grammar on_words(to: &[usize]) for [u64] {
    rule go(n: usize) = #{|_, _| RuleResult::Matched(to[n], ())}
    pub rule slice() -> &'input [u64] = go(0) s:$(go(1)) go(2) { s }
    #[no_eof] pub rule slice_anywhere() -> &'input [u64] = go(0) s:$(go(1)) { s }
    #[no_eof] pub rule elem() -> u64 = go(0) c:[_] { c }
    #[no_eof] pub rule elems() -> Vec<u64> = go(0) c:[_]* { c }
    #[no_eof] pub rule lit() -> usize = go(0) [7] p:position!() { p }
    pub rule fails() = go(0) expected!("x") / &(go(1) [_]) go(2) expected!("y")
    pub rule over() = go(0)
    #[no_eof] pub rule text() -> &'input [u64] = $(go(0) ([7] / [_])* go(1))
} }
peg::parser!{ grammar on_bytes(to: &[usize]) for [u8] {
    rule go(n: usize) = #{|_, _| RuleResult::Matched(to[n], ())}
    #[no_eof] pub rule slice() -> &'input [u8] = go(0) s:$(go(1)) { s }
    #[no_eof] pub rule elem() -> u8 = go(0) c:[_] { c }
    #[no_eof] pub rule lit() -> usize = go(0) "\u{e9}\n" p:position!() { p }
    #[no_eof] pub rule long() -> usize = go(0) "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa" p:position!() { p }
} }

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0.wrapping_mul(0x2545F4914F6CDD1D)
    }
    fn below(&mut self, n: usize) -> usize {
        (self.next() >> 11) as usize % n
    }
}

struct Mon(BTreeMap<&'static str, u64>, u64);
impl Mon {
    fn see<T>(&mut self, what: &'static str, f: impl FnOnce() -> T, ok: impl FnOnce(T) -> bool, ctx: &dyn Fn() -> String) {
        *self.0.entry(what).or_insert(0) += 1;
        match catch_unwind(AssertUnwindSafe(f)) {
            Err(_) => *self.0.entry("panics").or_insert(0) += 1,
            Ok(v) => {
                if !ok(v) {
                    self.1 += 1;
                    if self.1 < 20 {
                        println!("BAD {}: something that is no part of the input, {}", what, ctx());
                    }
                }
            }
        }
    }
}

/// inside of `all`, and well-formed
fn text(all: &str, s: &str) -> bool {
    let (a, b) = (all.as_ptr() as usize, s.as_ptr() as usize);
    let inside = b >= a && b.saturating_add(s.len()) <= a + all.len();
    inside && all.is_char_boundary(b - a) && all.is_char_boundary(b - a + s.len()) && std::str::from_utf8(s.as_bytes()).is_ok()
}
fn part<T>(all: &[T], s: &[T]) -> bool {
    let (a, b) = (all.as_ptr() as usize, s.as_ptr() as usize);
    b >= a && s.len() <= all.len() && b + s.len() * std::mem::size_of::<T>() <= a + all.len() * std::mem::size_of::<T>()
}
fn chars(v: &[char]) -> bool {
    v.iter().all(|c| char::from_u32(*c as u32).is_some())
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<u64> = std::env::args().skip(1).map(|x| x.parse().unwrap()).collect();
    let mut r = Rng(a[0].wrapping_mul(0x9E3779B97F4A7C15) | 1);
    let mut m = Mon(BTreeMap::new(), 0);
    for _ in 0..a[1] {
        // boxed: an allocation of exactly the input's size
        let s: Box<str> = (0..r.below(12)).map(|_| ['a', '\n', 'é', '€', '😀', '\u{301}'][r.below(6)]).collect::<String>().into_boxed_str();
        let w: Box<[u64]> = (0..r.below(9)).map(|_| r.below(9) as u64).collect::<Vec<_>>().into_boxed_slice();
        let far = [usize::MAX, usize::MAX - 1, usize::MAX / 2, usize::MAX / 2 + 1, 1 << 40, isize::MAX as usize - 3];
        let mut at = |n: usize| match r.below(8) {
            0 => far[r.below(far.len())],
            1 => n + r.below(70),
            2 => n.wrapping_sub(r.below(4)),
            _ => r.below(n + 3),
        };
        let ts = [at(s.len()), at(s.len()), at(s.len())];
        let tw = [at(w.len()), at(w.len()), at(w.len())];
        let b: &[u8] = s.as_bytes();
        let (cs, cw) = (|| format!("{:?} at {:?}", s, ts), || format!("{:?} at {:?}", w, tw));
        m.see("str.slice", || on_str::slice(&s, &ts), |x| x.map_or(true, |x| text(&s, x)), &cs);
        m.see("str.slice_anywhere", || on_str::slice_anywhere(&s, &ts), |x| x.map_or(true, |x| text(&s, x)), &cs);
        m.see("str.text", || on_str::text(&s, &ts), |x| x.map_or(true, |x| text(&s, x)), &cs);
        m.see("str.elem", || on_str::elem(&s, &ts), |x| x.map_or(true, |x| chars(&[x])), &cs);
        m.see("str.elems", || on_str::elems(&s, &ts), |x| x.map_or(true, |x| chars(&x)), &cs);
        m.see("str.lit", || on_str::lit(&s, &ts), |x| x.map_or(true, |x| x <= s.len() && s.is_char_boundary(x)), &cs);
        m.see("str.fails", || on_str::fails(&s, &ts).unwrap_err().to_string(), |x| x.len() < 100, &cs);
        m.see("str.over", || on_str::over(&s, &ts).map_err(|e| e.to_string().len()), |_| true, &cs);
        m.see("[T].slice", || on_words::slice(&w, &tw), |x| x.map_or(true, |x| part(&w, x)), &cw);
        m.see("[T].slice_anywhere", || on_words::slice_anywhere(&w, &tw), |x| x.map_or(true, |x| part(&w, x)), &cw);
        m.see("[T].text", || on_words::text(&w, &tw), |x| x.map_or(true, |x| part(&w, x)), &cw);
        m.see("[T].elem", || on_words::elem(&w, &tw), |x| x.map_or(true, |x| x < 9), &cw);
        m.see("[T].elems", || on_words::elems(&w, &tw), |x| x.map_or(true, |x| x.iter().all(|x| *x < 9)), &cw);
        m.see("[T].lit", || on_words::lit(&w, &tw), |x| x.map_or(true, |x| x <= w.len()), &cw);
        m.see("[u8].slice", || on_bytes::slice(b, &ts), |x| x.map_or(true, |x| part(b, x)), &cs);
        m.see("[u8].elem", || on_bytes::elem(b, &ts), |x| x.map_or(true, |x| b.contains(&x)), &cs);
        m.see("[u8].lit", || on_bytes::lit(b, &ts), |x| x.map_or(true, |x| x <= b.len()), &cs);
        m.see("[u8].long", || on_bytes::long(b, &ts), |x| x.is_err(), &cs);
    }
    for (k, n) in &m.0 {
        println!("STAT wild.{} {}", k, n);
    }
}
