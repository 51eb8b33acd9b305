//! A parser in a crate without the standard library.
#![no_std]
extern crate alloc;
use alloc::{format, string::String, vec, vec::Vec};

peg::parser! {
    pub grammar list() for str {
        rule num() -> u32 = n:$(quiet!{['0'..='9']+} / expected!("number")) {? n.parse().or(Err("u32")) }
        rule _() = quiet!{[' ' | '\n']*}
        pub rule all() -> Vec<u32> = _ "[" _ v:num() ** ("," _) _ "]" _ { v }
        pub rule arith() -> i64 = precedence!{
            x:(@) "+" y:@ { x.wrapping_add(y) }
            x:(@) "-" y:@ { x.wrapping_sub(y) }
            --
            x:(@) "*" y:@ { x.wrapping_mul(y) }
            --
            x:@ "^" y:(@) { x.wrapping_mul(3).wrapping_add(y) }
            --
            "-" x:@ { x.wrapping_neg() }
            --
            n:num() { n as i64 }
            "(" e:arith() ")" { e }
        }
        rule wrapped<T>(x: rule<T>) -> T = "<" v:x() ">" { v }
        pub rule tag(n: usize) -> Option<Vec<&'input str>> = (wrapped(<$(['a'..='é']+)>)*<{n},>)?
        #[no_eof] pub rule prefix() -> usize = !"x" (&"a" [_])* p:position!() { p }
    }
}
peg::parser! {
    pub grammar bytes() for [u8] {
        pub rule frame() -> &'input [u8] = n:[0..=9] body:$([_]*<{n as usize}>) "end" { body }
    }
}
pub fn show(i: &str) -> String {
    format!("{:?} {:?} {:?} {:?} {:?}", list::all(i), list::arith(i), list::tag(i, 1), list::prefix(i), bytes::frame(i.as_bytes()))
}
