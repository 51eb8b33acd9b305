//! Source text of generated programs.
use crate::ast::*;
use crate::gen::{self, Profile};
use crate::print::Printer;
use crate::rng::{hash_str, Rng};

pub const PRELUDE: &str = include_str!("prelude.rs.in");

pub fn grammar_text(g: &Grammar, p: &Profile, seed: u64, batch: u64, idx: u64) -> String {
    let rng = Rng::new(&[hash_str(&p.name), seed, batch, idx, 0x57]);
    Printer::new(g, p.style, rng).grammar()
}

/// The same grammar in another style.
pub fn styled_text(g: &Grammar, st: crate::print::Style, salt: u64) -> String {
    Printer::new(g, st, Rng::new(&[salt, 0x57])).grammar()
}

fn arg_src(a: &Arg, kind: Kind) -> String {
    match a {
        Arg::Us(N::Lit(n)) | Arg::Us(N::Const(n)) => n.to_string(),
        Arg::Str(s) => format!("{:?}", s),
        Arg::El(c) => match kind {
            Kind::Toks => format!("Tok::K({})", c),
            k => crate::print::elem_src(*c, k),
        },
        _ => panic!("exported argument"),
    }
}

/// Types, functions, modules, traits, macros and enum variants in scope where a
/// grammar is declared.
fn hostile_items(seed: u64, batch: u64, idx: u64) -> String {
    const TYPES: [&str; 22] = [
        "Input", "ParseState", "PositionRepr", "ErrorState", "RuleResult", "ParseError", "ExpectedSet", "Result", "HashMap", "PhantomData",
        "Parse", "ParseElem", "ParseLiteral", "ParseSlice", "Matched", "Failed", "Box", "String", "Output", "Element", "LineCol", "State",
    ];
    const FNS: [&str; 12] = [
        "new", "mark_failure", "is_eof", "start", "parse_elem", "parse_string_literal", "call_custom_closure", "__parse", "panic", "r_cache", "clone", "insert",
    ];
    const MODS: [&str; 6] = ["core", "std", "error", "str", "alloc", "peg"];
    let mut r = Rng::new(&[0x4057, seed, batch, idx]);
    let mut s = String::new();
    let names = gen::names();
    let upper = |n: &str| n.starts_with(|c: char| c.is_ascii_uppercase());
    // prelude variants and what this module itself uses have a place of their own
    let own = ["Ok", "Err", "Some", "None", "Option", "Shadow", "Fun", "Mon", "Vec", "T", "S"];
    let types: Vec<&str> = names.iter().map(|n| &n[..]).filter(|n| upper(n) && !TYPES.contains(n) && !own.contains(n)).collect();
    let fns: Vec<&str> = names.iter().map(|n| &n[..]).filter(|n| !upper(n) && !n.starts_with("__") && !FNS.contains(n) && !MODS.contains(n)).collect();
    for t in TYPES.iter().chain(&types) {
        if r.pct(40) {
            s.push_str(&match r.below(4) {
                0 => format!("pub struct {};", t),
                1 => format!("pub enum {} {{ A }}", t),
                2 => format!("pub type {} = u8;", t),
                _ => format!("pub trait {} {{}}", t),
            });
        }
    }
    for f in FNS.iter().chain(&fns) {
        if r.pct(40) {
            s.push_str(&format!("pub fn {}() {{}}", f));
        }
    }
    for m in MODS {
        if r.pct(30) {
            s.push_str(&format!("pub mod {} {{}}", m));
        }
    }
    if r.pct(50) {
        s.push_str("pub enum Shadow { Ok, Err, Some, None, Matched2 } pub use self::Shadow::*;");
    }
    s
}

pub fn program(profile: &str, seed: u64, batch: u64, from: u64, count: u64, skip: &[u64]) -> String {
    let p = Profile::get(profile);
    let mut s = String::from(PRELUDE);
    let mut entries = String::new();
    for idx in from..from + count {
        if skip.contains(&idx) {
            continue;
        }
        let g = gen::grammar(&p, seed, batch, idx);
        s.push_str(&format!("// GRAMMAR {}\n", idx));
        if p.hostile {
            // in a scope full of items named like what generated code mentions
            s.push_str(&format!("pub mod scope{} {{ use super::*;\n{}\n", idx, hostile_items(seed, batch, idx)));
        }
        s.push_str("::peg::parser!{\n");
        s.push_str(&grammar_text(&g, &p, seed, batch, idx));
        s.push_str("}\n");
        if p.hostile {
            s.push_str(&format!("pub fn entries(entries: &mut ::std::vec::Vec<(u64, usize, usize, Fun<Mon>)>) {{\n{}}}\n}}\n", entry_src(&g, idx)));
            entries.push_str(&format!(" scope{}::entries(&mut entries);\n", idx));
        } else {
            entries.push_str(&entry_src(&g, idx));
        }
    }
    s.push_str("// MAIN\n");
    s.push_str(&format!(
        "fn main() {{\n{} let mut entries: Vec<(u64, usize, usize, Fun<Mon>)> = Vec::new();\n{} Program {{ profile: {:?}, seed: {}, batch: {}, entries, mon: Mon, data: |m| &m.0 }}.main();\n}}\n",
        if p.hostile { format!(" pegmon::gen::set_names({:?});\n", gen::names().join(",")) } else { String::new() },
        entries, profile, seed, batch
    ));
    s
}

pub fn entry_src(g: &Grammar, idx: u64) -> String {
    let mut s = String::new();
    let gargs: String = g.gargs.iter().map(|(_, v)| format!(", {}", v)).collect();
    for (ri, r) in g.rules.iter().enumerate() {
        if !r.public {
            continue;
        }
        for (ci, args) in r.calls.iter().enumerate() {
            let a: String = args.iter().map(|a| format!(", {}", arg_src(a, g.kind))).collect();
            let k = match g.kind {
                Kind::Str => "Str",
                Kind::Bytes => "Bytes",
                Kind::Toks => "Toks",
                Kind::Mon => "Mon",
            };
            s.push_str(&format!(
                " entries.push(({}, {}, {}, Fun::{}(|i| fin_{}({}::{}(i{}{})))));\n",
                idx,
                ri,
                ci,
                k,
                k.to_lowercase(),
                g.name,
                r.name,
                gargs,
                a
            ));
        }
    }
    s
}
