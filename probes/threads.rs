//! One parser per mechanism, called on hostile inputs from several threads at
//! once; each result must be what the first, single-threaded call gave.
//! usage: threads SEED THREADS ROUNDS   prints `STAT name n` and `BAD what`
#![allow(warnings)]
use std::fmt::Debug;
use std::sync::atomic::{AtomicU64, Ordering};

// what a consumer may carry from one thread to another
fn carried<T: Send + Sync + 'static>() {}
fn compile_time() {
    carried::<peg::error::ParseError<peg::str::LineCol>>();
    carried::<peg::error::ParseError<usize>>();
    carried::<peg::error::ExpectedSet>();
    carried::<peg::str::LineCol>();
    carried::<peg::RuleResult<String>>();
}

peg::parser! {
    pub grammar arith() for str {
        pub rule calc() -> i64 = precedence!{
            x:(@) _ "+" _ y:@ { x.wrapping_add(y) }
            x:(@) _ "-" _ y:@ { x.wrapping_sub(y) }
            --
            x:(@) _ "*" _ y:@ { x.wrapping_mul(y) }
            x:@ _ "^" _ y:(@) { x.wrapping_mul(31).wrapping_add(y) }
            --
            "-" _ v:@ { v.wrapping_neg() }
            v:@ "!" { v.wrapping_add(1) }
            --
            n:number() { n }
            "(" _ e:calc() _ ")" { e }
        }
        rule number() -> i64 = n:$(['0'..='9']+) {? n.parse().or(Err("a number that fits")) }
        rule _ = quiet!{[' ' | '\n' | '\t' | '\u{3000}']*}
    }
}

peg::parser! {
    pub grammar text() for str {
        pub rule words() -> Vec<(usize, &'input str, usize)> = (s:position!() w:$(letter()+) e:position!() { (s, w, e) }) ** sep()
        rule letter() = [^ ' ' | '\n' | ',' | ';']
        rule sep() = [' ' | '\n']+ / "," / expected!("separator")
        #[no_eof]
        pub rule prefix() -> String = c:$([_]*<0,3>) { c.to_uppercase() }
        pub rule quoted() -> String = "“" c:(!"”" c:[_] { c })* "”" { c.into_iter().collect() }
        pub rule lines() -> Vec<&'input str> = l:$([^ '\n']*) ++ "\n" { l }
        pub rule either() -> usize = "ab" { 1 } / "aé" { 2 } / "a😀" { 3 } / "aa"*<2,> { 4 } / ['\u{10ffff}' | 'é'..='字'] { 5 } / { 6 }
        pub rule lookahead() = &("é" [_]) ![' '] [_]*
    }
}

peg::parser! {
    pub grammar memo(limit: usize) for str {
        #[cache_left_rec]
        pub rule chain() -> Vec<usize> = mut_chain()
        rule mut_chain() -> Vec<usize> = l:list() { l }
        #[cache_left_rec]
        rule list() -> Vec<usize> = l:list() "." n:name() { let mut l = l; l.push(n); l } / n:name() { vec![n] }
        #[cache]
        rule name() -> usize = s:$(['a'..='z' | '😀']+) {? if s.len() <= limit { Ok(s.len()) } else { Err("shorter name") } }
        #[cache_left_rec]
        pub rule sum() -> i64 = a:sum() "+" b:term() { a + b } / a:sum() "-" b:term() { a - b } / term()
        #[cache]
        rule term() -> i64 = n:name() { n as i64 } / "(" s:sum() ")" { -s }
        pub rule commasep<T: Copy + ::std::fmt::Debug>(t: T) -> Vec<(T, usize)> = args(<name()>, <",">, t)
        rule args<T: Copy>(x: rule<usize>, s: rule<()>, t: T) -> Vec<(T, usize)> = v:(n:x() { (t, n) }) **<0,5> s() { v }
    }
}

peg::parser! {
    pub grammar bytes() for [u8] {
        pub rule tlv() -> Vec<&'input [u8]> = item()*
        rule item() -> &'input [u8] = [0x01] n:[_] v:$([_]*<{ n as usize }>) { v } / [0x02] v:$([^ 0]*) [0] { v } / "GET " v:$(![10] [_])+ "\r\n" { b"get" }
        pub rule magic() = "\u{7f}ELF" [_]* / "é" [0..=127]
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum T { Open, Close, N(u8) }
peg::parser! {
    pub grammar toks() for [T] {
        pub rule tree() -> usize = [T::Open] c:tree()* [T::Close] { 1 + c.into_iter().sum::<usize>() } / [T::N(n)] { n as usize }
        pub rule spans() -> Vec<&'input [T]> = $([T::N(_)]+) ** ([T::Open] [T::Close])
    }
}

/// An input of its own, whose positions are far apart and end at the last usize.
pub struct Far(Vec<u16>);
const STEP: usize = 1 << 20;
impl Far {
    fn first(&self) -> usize { usize::MAX - self.0.len() * STEP }
    fn at(&self, p: usize) -> usize { assert_eq!((p - self.first()) % STEP, 0); (p - self.first()) / STEP }
}
impl peg::Parse for Far {
    type PositionRepr = usize;
    fn start<'i>(&'i self) -> usize { self.first() }
    fn is_eof<'i>(&'i self, p: usize) -> bool { self.at(p) >= self.0.len() }
    fn position_repr<'i>(&'i self, p: usize) -> usize { self.at(p) }
}
impl<'i> peg::ParseElem<'i> for Far {
    type Element = u16;
    fn parse_elem(&'i self, p: usize) -> peg::RuleResult<u16> {
        match self.0.get(self.at(p)) { Some(x) => peg::RuleResult::Matched(p + STEP, *x), None => peg::RuleResult::Failed }
    }
}
impl<'i> peg::ParseSlice<'i> for Far {
    type Slice = &'i [u16];
    fn parse_slice(&'i self, a: usize, b: usize) -> &'i [u16] { &self.0[self.at(a)..self.at(b)] }
}
peg::parser! {
    pub grammar far() for Far {
        #[cache_left_rec]
        pub rule sum() -> u32 = a:sum() [43] b:n() { a + b } / n()
        #[cache]
        rule n() -> u32 = s:$([48..=57]+) { s.iter().map(|x| *x as u32).sum() } / expected!("a number")
        pub rule groups() -> Vec<&'input [u16]> = $([48..=57]*<1,3>) ** [44]
    }
}

struct Rng(u64);
impl Rng {
    fn below(&mut self, n: usize) -> usize {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        (self.0.wrapping_mul(0x2545F4914F6CDD1D) >> 11) as usize % n
    }
}

enum In { S(String), B(Vec<u8>), T(Vec<T>), F(Far) }
type Case = (&'static str, In, fn(&In) -> String);

fn s(f: &In) -> &str { if let In::S(s) = f { s } else { unreachable!() } }
fn b(f: &In) -> &[u8] { if let In::B(s) = f { s } else { unreachable!() } }
fn t(f: &In) -> &[T] { if let In::T(s) = f { s } else { unreachable!() } }
fn f(f: &In) -> &Far { if let In::F(s) = f { s } else { unreachable!() } }

/// shown through every public accessor
fn fin<V: Debug, L: Debug + std::fmt::Display>(r: Result<V, peg::error::ParseError<L>>) -> String {
    match r {
        Ok(v) => format!("{:?}", v),
        Err(e) => format!("{:?} {} {:?}", e, e, e.expected.tokens().collect::<Vec<_>>()),
    }
}

const ATOMS: &[&str] = &["1", "23", "+", "-", "*", "^", "!", "(", ")", " ", "\u{3000}", "a", "aa", "b", "é", "😀", "字", "\u{10ffff}", ".", ",", ";", "\n", "\r\n",
    "“", "”", "99999999999999999999", "name", "verylongname", "\0"];

fn cases(seed: u64, n: usize) -> Vec<Case> {
    let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) | 1);
    let mut v: Vec<Case> = vec![];
    let fs: &[(&'static str, fn(&In) -> String)] = &[
        ("calc", |i| fin(arith::calc(s(i)))), ("words", |i| fin(text::words(s(i)))), ("prefix", |i| fin(text::prefix(s(i)))),
        ("quoted", |i| fin(text::quoted(s(i)))), ("lines", |i| fin(text::lines(s(i)))), ("either", |i| fin(text::either(s(i)))),
        ("lookahead", |i| fin(text::lookahead(s(i)))), ("chain", |i| fin(memo::chain(s(i), 8))), ("sum", |i| fin(memo::sum(s(i), usize::MAX))),
        ("commasep", |i| fin(memo::commasep(s(i), 4, 'x'))),
    ];
    let made = ["1 +2*3^ 2^2 - -(4!)!", "((((((((1))))))))", "(1+", "aé 字,😀\n\nb", "“a😀”", "“a", "a\n\nb\n", "aaaaaa", "aé", "a😀", "\u{10ffff}", "éé", "a.b.😀.ab", "a.",
        "a+b-(a+b-a)", "a+(b", "a,b,a", "a,a,a,a,a,a", ""];
    for (name, g) in fs {
        for k in 0..n {
            let i = if r.below(3) == 0 { made[r.below(made.len())].to_string() } else { (0..r.below(9)).map(|_| ATOMS[r.below(ATOMS.len())]).collect() };
            v.push((name, In::S(i), *g));
        }
    }
    for _ in 0..n {
        let x: Vec<u8> = match r.below(4) {
            0 => vec![1, 3, 0xff, 0, 0x80, 2, 7, 0],
            1 => vec![1, 255, 1],
            2 => b"GET /a\r\n\x01".to_vec(),
            _ => (0..r.below(10)).map(|_| [0, 1, 2, 3, 0x7f, 0x80, 0xff, b'G', 10, 13][r.below(10)]).collect(),
        };
        v.push(("tlv", In::B(x.clone()), |i| fin(bytes::tlv(b(i)))));
        v.push(("magic", In::B(if r.below(2) == 0 { b"\x7fELF\x01".to_vec() } else { x }), |i| fin(bytes::magic(b(i)))));
        let x: Vec<T> = (0..r.below(9)).map(|_| [T::Open, T::Close, T::N(3), T::N(255)][r.below(4)]).collect();
        v.push(("tree", In::T(if r.below(2) == 0 { vec![T::Open, T::Open, T::N(2), T::Close, T::N(1), T::Close] } else { x.clone() }), |i| fin(toks::tree(t(i)))));
        v.push(("spans", In::T(x), |i| fin(toks::spans(t(i)))));
        let x: Vec<u16> = (0..r.below(8)).map(|_| [43, 44, 48, 49, 57, 65535][r.below(6)]).collect();
        v.push(("far.sum", In::F(Far(if r.below(2) == 0 { vec![48, 43, 57, 57] } else { x.clone() })), |i| fin(far::sum(f(i)))));
        v.push(("groups", In::F(Far(x)), |i| fin(far::groups(f(i)))));
    }
    v
}

fn main() {
    compile_time();
    let a: Vec<u64> = std::env::args().skip(1).map(|x| x.parse().unwrap()).collect();
    let (seed, threads, rounds) = (a[0], a[1] as usize, a[2] as usize);
    let cs = cases(seed, rounds);
    let call = |c: &Case| match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (c.2)(&c.1))) {
        Ok(x) => x,
        Err(p) => format!("panic: {}", p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|x| x.to_string())).unwrap_or_default()),
    };
    let base: Vec<String> = cs.iter().map(|c| call(c)).collect();
    let (mut ok, mut err) = (0, 0);
    for (c, x) in cs.iter().zip(&base) {
        if x.starts_with("panic: ") {
            println!("BAD {}: {}", c.0, x);
        } else if x.starts_with("ParseError") {
            err += 1
        } else {
            ok += 1
        }
    }
    // errors made on one thread are read on another
    let done = AtomicU64::new(0);
    let bad = AtomicU64::new(0);
    std::thread::scope(|sc| {
        for t in 0..threads {
            let (cs, base, done, bad, call) = (&cs, &base, &done, &bad, &call);
            sc.spawn(move || {
                for i in 0..cs.len() {
                    // all threads in the same neighbourhood
                    let k = (i + t) % cs.len();
                    let got = call(&cs[k]);
                    done.fetch_add(1, Ordering::Relaxed);
                    if got != base[k] && bad.fetch_add(1, Ordering::Relaxed) < 5 {
                        println!("BAD {}: {:?} instead of {:?} among other threads", cs[k].0, got, base[k]);
                    }
                }
            });
        }
    });
    let e = std::thread::spawn(|| memo::sum("a+(", 3).unwrap_err()).join().unwrap();
    if e.location.offset != 3 { println!("BAD location of an error from another thread: {:?}", e) }
    println!("STAT accepted {}", ok);
    println!("STAT refused {}", err);
    println!("STAT calls_among_threads {}", done.load(Ordering::Relaxed));
}
