//! Direct monitor of the input traits of str, [u8] and [T]: every call is
//! compared with a definition written down independently of the runtime.
//! usage: primitives SEED CASES   prints `STAT name n` and `BAD what`
#![allow(warnings)]
use peg::{Parse, ParseElem, ParseLiteral, ParseSlice, RuleResult};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0.wrapping_mul(0x2545F4914F6CDD1D)
    }
    fn below(&mut self, n: usize) -> usize {
        (self.next() >> 11) as usize % n
    }
}

// shared lead and continuation bytes, all widths, line breaks of every kind
const CHARS: &[char] = &[
    'a', 'b', '\n', '\r', '\0', '\t', ' ', 'é', 'è', 'Ã', '©', '\u{7f}', '\u{80}', '\u{7ff}', '\u{800}', '€', '₭', '\u{2028}', '\u{85}',
    '\u{0b}', '\u{0c}', '\u{301}', '\u{feff}', '\u{ffff}', '\u{10000}', '😀', '😁', '\u{10ffff}', '字', '孖', '\u{200d}', '\u{fffd}',
];

struct Mon {
    n: BTreeMap<&'static str, u64>,
    bad: u64,
}
impl Mon {
    fn is<T: PartialEq + std::fmt::Debug>(&mut self, what: &'static str, got: T, want: T, ctx: &dyn Fn() -> String) {
        *self.n.entry(what).or_insert(0) += 1;
        if got != want {
            self.bad += 1;
            if self.bad < 20 {
                println!("BAD {}: {:?} instead of {:?} on {}", what, got, want, ctx());
            }
        }
    }
}

fn call<T>(f: impl FnOnce() -> T) -> Result<T, &'static str> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| "a panic")
}

fn on_str(m: &mut Mon, s: &str, lits: &[String]) {
    m.is("str.start", call(|| Parse::start(s)), Ok(0), &|| format!("{:?}", s));
    let mut bounds: Vec<usize> = s.char_indices().map(|(i, _)| i).collect();
    bounds.push(s.len());
    let (mut line, mut col) = (1, 1);
    let chars: Vec<char> = s.chars().collect();
    for (k, &p) in bounds.iter().enumerate() {
        let ctx = || format!("{:?} at {}", s, p);
        m.is("str.is_eof", call(|| Parse::is_eof(s, p)), Ok(k == chars.len()), &ctx);
        let want = match chars.get(k) {
            Some(c) => RuleResult::Matched(bounds[k + 1], *c),
            None => RuleResult::Failed,
        };
        m.is("str.parse_elem", call(|| ParseElem::parse_elem(s, p)), Ok(want), &ctx);
        let lc = call(|| Parse::position_repr(s, p));
        m.is("str.position_repr", lc.map(|l| (l.line, l.column, l.offset)), Ok((line, col, p)), &ctx);
        m.is("str.position_display", lc.map(|l| l.to_string()), Ok(format!("{}:{}", line, col)), &ctx);
        for l in lits {
            let lc: Vec<char> = l.chars().collect();
            let hit = k + lc.len() <= chars.len() && chars[k..k + lc.len()] == lc[..];
            let want = if hit { RuleResult::Matched(bounds[k + lc.len()], ()) } else { RuleResult::Failed };
            m.is("str.parse_string_literal", call(|| ParseLiteral::parse_string_literal(s, p, l)), Ok(want), &|| format!("{:?} at {} literal {:?}", s, p, l));
        }
        for &q in &bounds[k..] {
            let got = call(|| ParseSlice::parse_slice(s, p, q)).map(|x| (x.as_ptr() as usize, x.len()));
            m.is("str.parse_slice", got, Ok((s.as_ptr() as usize + p, q - p)), &|| format!("{:?} from {} to {}", s, p, q));
        }
        if let Some(c) = chars.get(k) {
            if *c == '\n' {
                line += 1;
                col = 1;
            } else {
                col += 1;
            }
        }
    }
}

fn on_bytes(m: &mut Mon, s: &[u8], lits: &[String]) {
    for p in 0..=s.len() {
        let ctx = || format!("{:?} at {}", s, p);
        for l in lits {
            let b: Vec<u8> = l.bytes().collect();
            let mut hit = true;
            for (i, x) in b.iter().enumerate() {
                hit &= s.get(p + i) == Some(x);
            }
            let want = if hit { RuleResult::Matched(p + b.len(), ()) } else { RuleResult::Failed };
            m.is("[u8].parse_string_literal", call(|| ParseLiteral::parse_string_literal(s, p, l)), Ok(want), &|| format!("{:?} at {} literal {:?}", s, p, l));
        }
    }
    on_slice(m, s, "[u8]");
}

fn on_slice<T: Copy + PartialEq + std::fmt::Debug>(m: &mut Mon, s: &[T], _name: &str) {
    m.is("[T].start", call(|| Parse::start(s)), Ok(0), &|| format!("{:?}", s));
    for p in 0..=s.len() {
        let ctx = || format!("{:?} at {}", s, p);
        m.is("[T].is_eof", call(|| Parse::is_eof(s, p)), Ok(p == s.len()), &ctx);
        m.is("[T].position_repr", call(|| Parse::position_repr(s, p)), Ok(p), &ctx);
        let want = if p < s.len() { RuleResult::Matched(p + 1, s[p]) } else { RuleResult::Failed };
        m.is("[T].parse_elem", call(|| ParseElem::parse_elem(s, p)), Ok(want), &ctx);
        for q in p..=s.len() {
            let got = call(|| ParseSlice::parse_slice(s, p, q)).map(|x| (x.as_ptr() as usize, x.len()));
            m.is("[T].parse_slice", got, Ok((s.as_ptr() as usize + p * std::mem::size_of::<T>(), q - p)), &|| format!("{:?} from {} to {}", s, p, q));
        }
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<u64> = std::env::args().skip(1).map(|x| x.parse().unwrap()).collect();
    let mut r = Rng(a[0].wrapping_mul(0x9E3779B97F4A7C15) | 1);
    let mut m = Mon { n: BTreeMap::new(), bad: 0 };
    // every string of up to two of the characters, every literal of up to two
    let mut short: Vec<String> = vec![String::new()];
    for c in CHARS {
        short.push(c.to_string());
    }
    let one = short.clone();
    for c in CHARS {
        for d in CHARS {
            short.push(format!("{}{}", c, d));
        }
    }
    // an interpreter sees a sample of them
    let few = |r: &mut Rng| cfg!(miri) && r.below(120) != 0;
    for s in &short {
        if few(&mut r) {
            continue;
        }
        let mut lits = one.clone();
        for _ in 0..12 {
            lits.push(short[r.below(short.len())].clone());
        }
        lits.push(s.clone());
        lits.push(format!("{}x", s));
        on_str(&mut m, s, &lits);
        on_bytes(&mut m, s.as_bytes(), &lits);
    }
    for _ in 0..a[1] {
        let n = [3, 5, 8, 13, 40][r.below(5)];
        let few = r.below(3) == 0;
        let s: String = (0..r.below(n + 1)).map(|_| CHARS[if few { r.below(6) } else { r.below(CHARS.len()) }]).collect();
        let chars: Vec<char> = s.chars().collect();
        let mut lits = vec![];
        for _ in 0..12 {
            // literals cut out of the string, some changed at the end or the start
            let i = r.below(chars.len() + 1);
            let j = i + r.below(chars.len() + 1 - i);
            let mut l: Vec<char> = chars[i..j].to_vec();
            match r.below(5) {
                0 => l.push(CHARS[r.below(CHARS.len())]),
                1 => {
                    if let Some(x) = l.last_mut() {
                        *x = CHARS[r.below(CHARS.len())]
                    }
                }
                2 => {
                    if let Some(x) = l.first_mut() {
                        *x = CHARS[r.below(CHARS.len())]
                    }
                }
                _ => {}
            }
            lits.push(l.into_iter().collect());
        }
        on_str(&mut m, &s, &lits);
        on_bytes(&mut m, s.as_bytes(), &lits);
        // bytes that are no UTF-8
        let b: Vec<u8> = (0..r.below(n + 1)).map(|_| [0u8, 0xff, 0x80, 0xc3, 0xa9, b'a', b'\n', 0xf0][r.below(8)]).collect();
        on_bytes(&mut m, &b, &lits);
        let w: Vec<u32> = (0..r.below(n + 1)).map(|_| r.next() as u32).collect();
        on_slice(&mut m, &w, "[u32]");
        let t: Vec<(u8, &'static str)> = (0..r.below(n + 1)).map(|_| (r.below(9) as u8, ["", "x", "yy"][r.below(3)])).collect();
        on_slice(&mut m, &t, "[(u8, &str)]");
        let z: Vec<()> = (0..r.below(n + 1)).map(|_| ()).collect();
        m.is("[()].len", call(|| Parse::is_eof(&z[..], z.len())), Ok(true), &|| format!("{:?}", z));
    }
    // long inputs: positions far from the start
    let long: String = (0..if cfg!(miri) { 1_500 } else { 40_000 }).map(|i| if i % 97 == 96 { '\n' } else { CHARS[(i * 7) % CHARS.len()] }).collect();
    let (mut line, mut col) = (1, 1);
    for (i, (p, c)) in long.char_indices().enumerate() {
        if i % 211 == 0 {
            let g = Parse::position_repr(&long[..], p);
            m.is("str.position_repr_long", (g.line, g.column, g.offset), (line, col, p), &|| format!("offset {} of a long text", p));
        }
        if c == '\n' {
            line += 1;
            col = 1
        } else {
            col += 1
        }
    }
    for (k, v) in &m.n {
        println!("STAT {} {}", k, v);
    }
}
