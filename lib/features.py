"""Well-formed grammars that embed all kinds of legal Rust. Each feature is a
few rules for a `str` grammar and assertions on the parser they give; programs
combine random subsets of them in one grammar, in random order and spelling.

Names end in @ and are made unique per program (x@ -> x_3)."""

# (name, extra `use` lines, rules, assertions)  G is the grammar module
STR = [
 ("doc_comments", "", '''
/// A number with "quotes", `ticks`, \\ and { braces ] in its documentation
/// rule not_a_rule() = "x"
pub rule num@() -> u32
    = n:$(['0'..='9']+) {? n.parse().or(Err("u32")) }
''', '''
assert_eq!(G::num@("42"), Ok(42));
assert!(G::num@("99999999999").is_err());
'''),
 ("block_doc_comment", "", '''
/** block
    doc */
pub(crate) rule bd@() = "x"
''', '''assert!(G::bd@("x").is_ok());'''),
 ("borrowed_result", "", '''
pub rule word@() -> &'input str = $(['a'..='z']+)
pub rule words@() -> Vec<&'input str> = word@() ** " "
''', '''
let s = String::from("ab cd"); assert_eq!(G::words@(&s).unwrap(), vec!["ab", "cd"]);
assert!(std::ptr::eq(G::words@(&s).unwrap()[1].as_ptr(), s[3..].as_ptr()));
'''),
 ("tuple_and_array_types", "", '''
pub rule tup@() -> (usize, char, (), [u8; 2],) = p:position!() c:['a'..='z'] { (p, c, (), [1, 2]) }
pub rule one@() -> (u8) = "q" { 7 }
''', '''assert_eq!(G::tup@("k").unwrap(), (0, 'k', (), [1u8, 2])); assert_eq!(G::one@("q"), Ok(7u8));'''),
 ("boxed_closure", "", '''
pub rule adder@() -> Box<dyn Fn(u32) -> u32> = n:$(['0'..='9']+) { let n: u32 = n.parse().unwrap(); Box::new(move |x| x + n) }
pub rule adder2@() -> Box<dyn for<'b> Fn(&'b u32) -> u32 + 'input> = n:$(['0'..='9']+) { Box::new(move |x: &u32| *x + n.len() as u32) }
''', '''assert_eq!(G::adder@("12").unwrap()(30), 42); assert_eq!(G::adder2@("12").unwrap()(&40), 42);'''),
 ("qualified_types", "use std::collections::HashMap;", '''
pub rule qt@() -> <str as ToOwned>::Owned = s:$("a"+) { s.to_owned() }
pub rule qp@() -> ::std::string::String = s:$("a"+) { s.to_string() }
pub rule kv@() -> HashMap<String, [u8; 1]> = k:$("a"+) "=" v:$("b"+) { let mut m = HashMap::new(); m.insert(k.into(), [v.len() as u8]); m }
''', '''assert_eq!(G::qt@("aa").unwrap(), "aa"); assert_eq!(G::qp@("a").unwrap(), "a"); assert_eq!(G::kv@("a=bb").unwrap()["a"], [2]);'''),
 ("const_generic_type", "", '''
pub rule cg@() -> Sized3<3> = "x" { Sized3([0; 3]) }
pub rule cg2@() -> Sized3<{ 1 + 1 }> = "x" { Sized3([0; 2]) }
''', '''assert_eq!(G::cg@("x").unwrap().0.len(), 3); assert_eq!(G::cg2@("x").unwrap().0.len(), 2);'''),
 ("rule_generics", "", '''
rule list@<T>(x: rule<T>) -> Vec<T> = "[" v:(x() ** ",") ","? "]" { v }
rule pair@<A, B: Clone>(a: rule<A>, b: rule<B>) -> (A, B) where A: Clone, B: PartialEq + 'input = x:a() ":" y:b() { (x.clone(), y.clone()) }
pub rule gl@() -> Vec<(char, usize)> = list@(<pair@(<['a'..='z']>, <n:$(['0'..='9']+) { n.len() }>)>)
pub rule gl2@() -> Vec<Vec<char>> = list@(<list@(<['a'..='z']>)>)
''', '''assert_eq!(G::gl@("[a:12,b:1,]").unwrap(), vec![('a', 2), ('b', 1)]); assert_eq!(G::gl2@("[[a,b],[]]").unwrap(), vec![vec!['a', 'b'], vec![]]);'''),
 ("turbofish_call", "", '''
rule parse@<T: std::str::FromStr>() -> T = n:$(['0'..='9']+) {? n.parse().map_err(|_| "number") }
pub rule tf@() -> (u8, u64) = a:parse@::<u8>() "," b:parse@::<u64>() { (a, b) }
''', '''assert_eq!(G::tf@("7,300").unwrap(), (7, 300)); assert!(G::tf@("300,7").is_err());'''),
 ("turbofish_unlabelled", "", '''
rule any@<T: std::str::FromStr>() -> T = n:$(['0'..='9']+) {? n.parse().or(Err("number")) }
pub rule ta@() -> u8 = any@::<u8>()
pub rule tb@() -> Vec<u16> = any@::<u16>() ** ","
pub rule tc@() -> &'input str = $(any@::<i8>() "x")
pub rule td@() -> u8 = any@::<u64>() ":" v:any@::<u8,>() { v } / ta@()
''', '''assert_eq!(G::ta@("12"), Ok(12)); assert!(G::ta@("300").is_err()); assert_eq!(G::tb@("1,300").unwrap(), vec![1, 300]); assert_eq!(G::tc@("4x"), Ok("4x")); assert_eq!(G::td@("999:4"), Ok(4)); assert_eq!(G::td@("9"), Ok(9));'''),
 ("expected_anywhere", "", '''
pub rule xa@() = "a" / "b" expected!("c")
pub rule xb@() -> u8 = ("a" { 1 } / expected!("letter a")) / ("b" expected!("never") / "c") { 2 }
pub rule xc@() = !expected!("x") expected!("y")? expected!(concat!("z", "z"))* "q"
''', '''assert!(G::xa@("b").is_err()); assert!(G::xa@("a").is_ok()); assert_eq!(G::xb@("c"), Ok(2)); assert!(G::xb@("b").is_err()); assert!(G::xc@("q").is_ok());'''),
 ("rust_parameters", "use peg::ParseLiteral;", '''
rule radix@(radix: u32, f: &dyn Fn(u32) -> u32) -> u32 = n:$(['0'..='9']+) {? u32::from_str_radix(n, radix).map(|x| f(x)).or(Err("number")) }
pub rule oct@() -> u32 = radix@(8, &|x| x * 2)
pub rule hex@(k: u32) -> u32 = radix@({ let y = 8 * 2; y }, &move |x| x + k)
pub rule sep@(s: &str, n: usize) -> usize = v:(##parse_string_literal(s)*<{n}>) { v.len() }
''', '''assert_eq!(G::oct@("10"), Ok(16)); assert_eq!(G::hex@("10", 5), Ok(21)); assert_eq!(G::sep@("abab", "ab", 2), Ok(2)); assert!(G::sep@("abab", "ab", 1).is_err());'''),
 ("pattern_guard", "", '''
pub rule pg@() -> char = [c if c.is_alphabetic() && !matches!(c, 'x' | 'y')]
pub rule pr@() -> char = c:['a'..='f' | 'A'..='F' | '_'] { c }
pub rule pn@() -> Vec<char> = [^ ' ' | '\\n' | '\\u{e9}']*
pub rule pb@() -> char = [d @ ('0'..='9')] { d }
pub rule pc@() -> char = [MAXC] { 'm' } / [c @ ('a'..=MAXC)] { c }
''', '''
assert_eq!(G::pg@("é"), Ok('é')); assert!(G::pg@("x").is_err()); assert_eq!(G::pr@("_"), Ok('_'));
assert_eq!(G::pn@("ab").unwrap().len(), 2); assert!(G::pn@("aé").is_err()); assert_eq!(G::pb@("5"), Ok('5')); assert_eq!(G::pc@("m"), Ok('m')); assert_eq!(G::pc@("c"), Ok('c'));
'''),
 ("escapes", "", r'''
pub rule esc@() = "\"" "\\" "\n" "\t" "\u{1F600}" "{" "}" "(" "]" "/" "//" "/*" "'" r"\d" r#"a"b"#
''', r'''assert!(G::esc@("\"\\\n\t\u{1F600}{}(]////*'\\da\"b").is_ok());'''),
 ("action_closure_question_mark", "", '''
pub rule q@() -> u8 = n:$(['0'..='9']+) {?
    let v: u32 = n.parse().map_err(|_| "parse")?;
    if v > 255 { return Err("byte"); }
    Ok(v as u8)
}
pub rule early@() -> i32 = n:$(['0'..='9']+) { if n.len() > 2 { return -1; } n.parse().unwrap() }
''', '''assert_eq!(G::q@("255"), Ok(255)); assert!(G::q@("256").is_err()); assert_eq!(G::early@("123"), Ok(-1)); assert_eq!(G::early@("12"), Ok(12));'''),
 ("action_items_macros", "", '''
pub rule am@() -> String = v:(['a'..='z']) ** "," {
    macro_rules! twice { ($e:expr) => { format!("{}{}", $e, $e) }; }
    #[derive(Debug)] struct Local { n: usize }
    fn helper(l: Local) -> usize { l.n }
    let s: Vec<String> = v.iter().map(|c| twice!(c)).collect();
    format!("{:?}-{}", s, helper(Local { n: v.len() }))
}
''', '''assert_eq!(G::am@("a,b").unwrap(), "[\\"aa\\", \\"bb\\"]-2");'''),
 ("action_control_flow", "", '''
pub rule cf@() -> usize = v:$([_]*) {
    let mut n = 0;
    'outer: for c in v.chars() {
        for d in ['x', 'y'] { if c == d { continue 'outer; } if c == '!' { break 'outer; } }
        n += match c { 'a'..='m' => 1, 'n' | 'o' => 2, _ if c.is_numeric() => 10, _ => 0 };
    }
    while n > 1000 { n -= 1; }
    n
}
''', '''assert_eq!(G::cf@("axn5!a"), Ok(13));'''),
 ("mut_captures", "", '''
pub rule mc@() -> Vec<char> = v:['a'..='z']+ tail:['0'..='9']? { let mut v = v; v.extend(tail); v.sort(); v }
''', '''assert_eq!(G::mc@("ba1").unwrap(), vec!['1', 'a', 'b']);'''),
 ("option_value", "", '''
pub rule ov@() -> (Option<char>, Option<Vec<&'input str>>) = s:['+' | '-']? d:(($("a")) ++ ",")? { (s, d) }
''', '''assert_eq!(G::ov@("-").unwrap(), (Some('-'), None)); assert_eq!(G::ov@("a,a").unwrap(), (None, Some(vec!["a", "a"])));'''),
 ("raw_identifiers", "", '''
pub rule r#fn@() -> char = r#type:['a'..='z'] r#match:r#loop@() { if r#match { r#type } else { '?' } }
rule r#loop@() -> bool = r#in:"!"? { r#in.is_some() }
''', '''assert_eq!(G::r#fn@("a!"), Ok('a')); assert_eq!(G::r#fn@("a"), Ok('?'));'''),
 ("keyword_like_names", "", '''
pub rule grammar@() -> usize = quiet:quiet@() expected:position@() position:position!() { quiet + expected + position }
rule quiet@() -> usize = "q" { 100 }
rule position@() -> usize = "p" { 10 }
rule cache@() = "c"
rule precedence@() -> u8 = cache@() { 1 }
pub rule union@() -> u8 = precedence:precedence@() cache:precedence@() { precedence + cache }
''', '''assert_eq!(G::grammar@("qp"), Ok(112)); assert_eq!(G::union@("cc"), Ok(2));'''),
 ("unicode_names", "", '''
pub rule été@() -> char = größe:['é'] { größe }
''', '''assert_eq!(G::été@("é"), Ok('é'));'''),
 ("quiet_expected", "", '''
rule ident@() = quiet!{ ['a'..='z']['a'..='z' | '0'..='9']* } / expected!("identifier")
pub rule qe@() -> &'input str = "let" " "* n:$(ident@()) ";"? { n }
''', '''assert_eq!(G::qe@("let a1;"), Ok("a1")); assert_eq!(G::qe@("let 1").unwrap_err().expected.to_string(), "one of \\" \\", identifier");'''),
 ("precedence_full", "", '''
pub rule pf@() -> i64 = precedence!{
    x:(@) "+" y:@ { x + y }
    x:(@) "-" y:@ { x - y }
    --
    x:(@) "*" y:@ { x * y }
    --
    x:@ "^" y:(@) { x.pow(y as u32) }
    --
    "-" x:@ { -x }
    x:@ "!" { (1..=x).product() }
    --
    n:$(['0'..='9']+) {? n.parse().or(Err("number")) }
    "(" e:pf@() ")" { e }
}
''', ''''''),
 ("precedence_span", "", '''
pub rule ps@() -> (usize, String, usize) = precedence!{
    l:position!() n:@ r:position!() { (l, n, r) }
    --
    x:(@) "+" y:@ { format!("({}+{})", x.1, y.1) }
    --
    n:$(['0'..='9']+) { n.to_string() }
}
''', '''assert_eq!(G::ps@("1+22+3").unwrap(), (0, "((1+22)+3)".to_string(), 6));'''),
 ("precedence_mixed_operands", "", '''
rule ws@() = quiet!{ [' ']* }
pub rule pm@() -> Vec<String> = precedence!{
    x:(@) ws@() op:$("and" / "or") ws@() y:@ { let mut v = x; v.extend(y); v.push(op.to_string()); v }
    --
    "not" ws@() v:@ { let mut v: Vec<String> = v; v.push("not".into()); v }
    --
    c:['a'..='z'] { vec![c.to_string()] }
    "(" ws@() e:pm@() ws@() ")" { e }
} / "" { vec![] }
''', '''assert_eq!(G::pm@("a and not (b or c)").unwrap(), vec!["a", "b", "c", "or", "not", "and"]);'''),
 ("cached_rules", "", '''
#[cache]
pub rule ca@() -> String = s:$(['a'..='z']) t:ca@()? { format!("{}{}", s, t.unwrap_or_default()) }
/// documented and left recursive
#[cache_left_rec]
pub rule lr@() -> i64 = l:lr@() "-" n:nm@() { l - n } / nm@()
#[cache]
rule nm@() -> i64 = n:$(['0'..='9']+) {? n.parse().or(Err("n")) }
#[cache] #[no_eof] pub rule cn@() -> Vec<char> = ['a'..='z']*
''', '''assert_eq!(G::ca@("abc").unwrap(), "abc"); assert_eq!(G::lr@("9-3-2"), Ok(4)); assert_eq!(G::cn@("ab1").unwrap().len(), 2);'''),
 ("underscore_rules", "", '''
rule uu@() = [' ' | '\\n']*
pub rule us@() -> usize = uu@() n:(['a'] ** uu@()) uu@() { n.len() }
''', '''assert_eq!(G::us@(" a a\\na "), Ok(3));'''),
 ("bounds_exprs", "", '''
rule dig@() -> usize = d:['0'..='9'] { d as usize - '0' as usize }
pub rule be@() -> &'input str = n:dig@() s:$(['a'..='z']*<{n}>) { s }
pub rule be2@(lo: usize, hi: usize) -> usize = v:("a" **<{lo}, {hi * 2}> ",") { v.len() }
pub rule be3@() -> usize = v:("a"*<2,3>) { v.len() }
pub rule be4@() -> usize = v:("a" **<,2> "," "a"*<1>) { 1 } / v:("a"*<3,>) { v.len() }
''', '''assert_eq!(G::be@("3abc"), Ok("abc")); assert!(G::be@("3ab").is_err()); assert_eq!(G::be2@("a,a,a,a", 1, 2), Ok(4)); assert!(G::be2@("a,a,a,a,a", 1, 2).is_err()); assert_eq!(G::be3@("aaa"), Ok(3)); assert!(G::be3@("aaaa").is_err());'''),
 ("custom_closure", "use peg::ParseLiteral;", '''
pub rule cc@() -> usize = #{|input: &str, pos| {
    let n = input[pos..].bytes().take_while(|b| *b == b'z').count();
    if n > 0 { peg::RuleResult::Matched(pos + n, n) } else { peg::RuleResult::Failed }
}}
pub rule cm@() -> Vec<()> = ##parse_string_literal(concat!("a", "b"))*
''', '''assert_eq!(G::cc@("zzz"), Ok(3)); assert!(G::cc@("zy").is_err()); assert_eq!(G::cm@("abab").unwrap().len(), 2);'''),
 ("lookahead_values", "", '''
pub rule la@() -> (char, &'input str) = c:&['a'..='c'] s:$(['a'..='z']+) !['0'..='9'] { (c, s) }
pub rule lb@() -> char = &(['a'] ['b']) c:[_] [_] { c }
''', '''assert_eq!(G::la@("bx"), Ok(('b', "bx"))); assert_eq!(G::lb@("ab"), Ok('a')); assert!(G::lb@("ac").is_err());'''),
 ("empty_things", "", '''
pub rule em@() = {}
pub rule en@() -> () = ()
pub rule eo@() -> u8 = { 3 }
pub rule ep@() -> u8 = "x" { 1 } / { 2 }
''', '''assert!(G::em@("").is_ok()); assert!(G::em@("x").is_err()); assert_eq!(G::eo@(""), Ok(3)); assert_eq!(G::ep@(""), Ok(2)); assert_eq!(G::ep@("x"), Ok(1));'''),
 ("nested_modules_paths", "use self::inner::*; use super::outer_mod::Thing as Renamed; use crate::outer_mod::{make, Thing, };", '''
pub rule np@() -> Renamed = n:$("t"+) { make(n.len()) }
pub rule nq@() -> Thing = "t" { super::outer_mod::make(9) }
''', '''assert_eq!(G::np@("tt").unwrap().0, 2); assert_eq!(G::nq@("t").unwrap().0, 9);'''),
 ("struct_shorthand", "", '''
pub rule ss@() -> Point = "(" x:int@() "," y:int@() ")" { Point { x, y } }
rule int@() -> i32 = n:$("-"? ['0'..='9']+) {? n.parse().or(Err("int")) }
pub rule sv@() -> Vec<Point> = ss@()*
pub rule sm@() -> i32 = p:ss@() { let Point { x, y: yy } = p; x * yy }
''', '''assert_eq!(G::ss@("(1,-2)").unwrap(), Point { x: 1, y: -2 }); assert_eq!(G::sv@("(1,2)(3,4)").unwrap().len(), 2); assert_eq!(G::sm@("(3,4)"), Ok(12));'''),
 ("enum_results", "", '''
pub rule ex@() -> Expr = l:et@() "+" r:ex@() { Expr::Add(Box::new(l), Box::new(r)) } / et@()
rule et@() -> Expr = n:$(['0'..='9']+) { Expr::Num(n.parse().unwrap()) } / "(" e:ex@() ")" { e }
''', '''assert_eq!(G::ex@("1+(2+3)").unwrap().eval(), 6);'''),
 ("recursion_values", "", '''
pub rule nest@() -> usize = "(" n:nest@() ")" { n + 1 } / "" { 0 }
pub rule even@() -> bool = "a" b:odd@() { b } / { true }
rule odd@() -> bool = "a" b:even@() { b } / { false }
''', '''assert_eq!(G::nest@("((()))"), Ok(3)); assert_eq!(G::even@("aaaa"), Ok(true)); assert_eq!(G::even@("aaa"), Ok(false));'''),
 ("template_of_template", "", '''
rule t1@<T>(x: rule<T>) -> T = "<" v:x() ">" { v }
rule t2@<T>(x: rule<T>, n: usize) -> Vec<T> = v:(t1@(<x()>) **<{n},> ";") { v }
rule t3@<A, R>(f: impl Fn(A) -> R + Copy, x: rule<A>) -> R = a:x() { f(a) }
pub rule tt@() -> Vec<u32> = t2@(<t3@(|c: char| c as u32, <['a'..='c']>)>, 2)
''', '''assert_eq!(G::tt@("<a>;<c>").unwrap(), vec![97, 99]); assert!(G::tt@("<a>").is_err());'''),
 ("arg_sees_locals", "", '''
rule rep@<T>(x: rule<T>) -> Vec<T> = v:x() ++ "," { v }
pub rule al@() -> Vec<(char, usize)> = q:['x' | 'y'] p:position!() v:rep@(<n:$([c if c == q]+) { (q, n.len() + p) }>) { v }
''', '''assert_eq!(G::al@("xx,xx").unwrap(), vec![('x', 2), ('x', 3)]); assert!(G::al@("xx,yy").is_err());'''),
 ("slices_of_everything", "", '''
pub rule sl@() -> Vec<&'input str> = v:($("a" ("b" / "c")* !"d"))+ e:$("") o:$("z"?) { let mut v = v; v.push(e); v.push(o); v }
''', '''assert_eq!(G::sl@("abcaz").unwrap(), vec!["abc", "a", "", "z"]);'''),
 ("deep_groups", "", '''
pub rule dg@() -> Vec<Option<Vec<(char, Vec<&'input str>)>>> = (("(" v:(c:['a'..='z'] d:($("."))* { (c, d) })* ")" { v })? ";" )*
''', None),
 ("visibilities", "", '''
pub rule v1@() = "a"
pub(crate) rule v2@() = v3@()
pub(super) rule v3@() = v1@()
pub(in crate) rule v4@() = v2@()
''', '''assert!(G::v1@("a").is_ok() && G::v2@("a").is_ok() && G::v3@("a").is_ok() && G::v4@("a").is_ok());'''),
 ("byte_and_number_literals", "", '''
pub rule nl@() -> f64 = "x" { 1_000.5e1 + 0x1F as f64 + 0b11 as f64 + b'a' as f64 + b"ab"[1] as f64 + 'a' as u32 as f64 }
''', '''assert_eq!(G::nl@("x"), Ok(10005.0 + 31.0 + 3.0 + 97.0 + 98.0 + 97.0));'''),
 ("generic_method_chains", "", '''
pub rule gm@() -> Vec<u32> = v:$(['0'..='9' | ',']+) { v.split(',').filter_map(|s| s.parse::<u32>().ok()).collect::<Vec<_>>() }
pub rule sh@() -> bool = a:num1@() "<" b:num1@() { a < b } / a:num1@() ">" b:num1@() { a > b && !(a << 1 < b >> 1) }
rule num1@() -> u32 = n:$(['0'..='9']+) { n.parse::<u32>().unwrap_or(0) }
''', '''assert_eq!(G::gm@("1,,22").unwrap(), vec![1, 22]); assert_eq!(G::sh@("1<2"), Ok(true)); assert_eq!(G::sh@("3>2"), Ok(true));'''),
 ("semicolons", "", '''
pub rule se@() = "a";
pub rule sf@() -> u8 = "b" { 1 } / "c" { 2 };
''', '''assert!(G::se@("a").is_ok()); assert_eq!(G::sf@("c"), Ok(2));'''),
 ("choice_of_labels", "", '''
pub rule cl@() -> u8 = a:("x" { 1 } / "y" { 2 }) b:(("p" / "q") { 10 })? { a + b.unwrap_or(0) }
pub rule cs@() -> &'input str = l:$("a" / "b") "=" { l } / "c" r:$("d") { r }
pub rule ll@() -> usize = x:"a" y:"b"? z:"c"* { let () = x; y.map_or(0, |()| 1) + z.len() }
''', '''assert_eq!(G::cl@("yp"), Ok(12)); assert_eq!(G::cs@("cd"), Ok("d")); assert_eq!(G::ll@("abcc"), Ok(3));'''),
]
STR = [f for f in STR if f[3] is not None and f[0] != "precedence_full"] + [
 ("precedence_arith", "", '''
pub rule pa@() -> i64 = precedence!{
    x:(@) "+" y:@ { x + y }
    x:(@) "-" y:@ { x - y }
    --
    x:(@) "*" y:@ { x * y }
    --
    x:@ "^" y:(@) { i64::pow(x, y as u32) }
    --
    "-" x:@ { -x }
    x:@ "!" { (1..=x).product() }
    --
    n:number@() { n }
    "(" e:pa@() ")" { e }
}
rule number@() -> i64 = n:$(['0'..='9']+) {? n.parse().or(Err("number")) }
''', '''assert_eq!(G::pa@("1+2*3-4"), Ok(3)); assert_eq!(G::pa@("2^3^2"), Ok(512)); assert_eq!(G::pa@("-3+7"), Ok(4)); assert_eq!(G::pa@("(1+2)*3"), Ok(9)); assert!(G::pa@("1+").is_err());'''),
]

OUTER = '''
#![allow(warnings)]
#[derive(Debug, Clone, PartialEq)] pub struct Point { pub x: i32, pub y: i32 }
#[derive(Debug, Clone, PartialEq)] pub struct Sized3<const N: usize>(pub [u8; N]);
#[derive(Debug, Clone, PartialEq)] pub enum Expr { Num(i64), Add(Box<Expr>, Box<Expr>) }
impl Expr { fn eval(&self) -> i64 { match self { Expr::Num(n) => *n, Expr::Add(a, b) => a.eval() + b.eval() } } }
pub const MAXC: char = 'm';
pub mod outer_mod { #[derive(Debug)] pub struct Thing(pub usize); pub fn make(n: usize) -> Thing { Thing(n) } }
pub mod inner { }
'''

# whole programs: grammars whose header is the point
WHOLE = [
 ("grammar_lifetime_args", '''
pub struct Ctx<'c> { pub names: Vec<&'c str>, pub n: std::cell::Cell<usize> }
peg::parser!{
  /// grammar docs
  pub(crate) grammar g<'c>(ctx: &'c Ctx<'c>, base: u32,) for str {
    pub rule name() -> &'c str = n:$(['a'..='z']+) {? ctx.n.set(ctx.n.get() + 1); ctx.names.iter().copied().find(|x| *x == n).ok_or("known name") }
    pub rule num(k: u32) -> u32 = d:$(['0'..='9']+) { d.parse::<u32>().unwrap() * base + k }
    #[cache] pub rule both() -> (&'c str, u32) = n:name() "=" v:num(1) { (n, v) }
  }
}
fn main() {
    let ctx = Ctx { names: vec!["ab"], n: Default::default() };
    assert_eq!(g::name("ab", &ctx, 10), Ok("ab"));
    assert_eq!(g::num("4", &ctx, 10, 2), Ok(42));
    assert_eq!(g::both("ab=4", &ctx, 10), Ok(("ab", 41)));
    assert!(g::name("zz", &ctx, 10).is_err());
}'''),
 ("token_slice", '''
#[derive(Debug, Clone, Copy, PartialEq)] pub enum Tk { Num(i64), Op(char), Ident(&'static str), Open, Close }
peg::parser!{
  grammar g<'a>() for [Tk] {
    pub rule sum() -> i64 = l:term() [Tk::Op('+')] r:sum() { l + r } / term()
    rule term() -> i64 = [Tk::Num(n)] { n } / [Tk::Open] s:sum() [Tk::Close] { s } / [Tk::Ident(s) if s.len() > 2] { s.len() as i64 }
    pub rule slice() -> &'input [Tk] = $([Tk::Num(_)]+)
    pub rule any() -> Vec<Tk> = t:[_]* { t }
    pub rule not() -> usize = v:[^ Tk::Open | Tk::Close]* { v.len() }
  }
}
fn main() {
    use Tk::*;
    assert_eq!(g::sum(&[Num(1), Op('+'), Open, Num(2), Op('+'), Ident("abc"), Close]), Ok(6));
    assert_eq!(g::slice(&[Num(1), Num(2)]), Ok(&[Num(1), Num(2)][..]));
    assert_eq!(g::any(&vec![Open]).unwrap(), vec![Open]);
    assert_eq!(g::not(&[Num(1), Op('+')]), Ok(2));
    assert_eq!(g::sum(&[Num(1), Op('-')]).unwrap_err().location, 1);
}'''),
 ("bytes", '''
peg::parser!{
  grammar g() for [u8] {
    pub rule num() -> u32 = n:$([b'0'..=b'9']+) {? std::str::from_utf8(n).unwrap().parse().or(Err("u32")) }
    pub rule lit() -> Vec<u8> = "GET " v:[^ b' ' | 0]* "\\r\\n" { v }
    pub rule raw() -> u8 = [0xff] [b] { b }
  }
}
fn main() {
    assert_eq!(g::num(b"123"), Ok(123));
    assert_eq!(g::lit(b"GET /x\\r\\n"[..].as_ref()).is_ok(), false);
    assert_eq!(g::raw(&[0xff, 7]), Ok(7));
    assert_eq!(g::raw(&[0xff]).unwrap_err().location, 1);
}'''),
 ("copy_elements", '''
peg::parser!{
  grammar g() for [f64] {
    pub rule inc() -> f64 = a:[x if x > 0.0] b:[_] { a + b }
  }
}
peg::parser!{
  grammar h() for [(u8, &'static str)] {
    pub rule p() -> Vec<&'static str> = v:([(0..=9, s)] { s })* { v }
  }
}
fn main() {
    assert_eq!(g::inc(&[1.5, 2.0]), Ok(3.5)); assert!(g::inc(&[-1.0, 2.0]).is_err());
    assert_eq!(h::p(&[(1, "a"), (9, "b")]).unwrap(), vec!["a", "b"]); assert!(h::p(&[(10, "a")]).is_err());
}'''),
 ("input_with_lifetime", '''
use peg::{Parse, ParseElem, ParseLiteral, ParseSlice, RuleResult};
pub struct Words<'a>(pub Vec<&'a str>);
impl<'a> Parse for Words<'a> { type PositionRepr = usize; fn start(&self) -> usize { 0 } fn is_eof(&self, p: usize) -> bool { p >= self.0.len() } fn position_repr(&self, p: usize) -> usize { p } }
impl<'input, 'a: 'input> ParseElem<'input> for Words<'a> { type Element = &'a str; fn parse_elem(&'input self, p: usize) -> RuleResult<&'a str> { match self.0.get(p) { Some(w) => RuleResult::Matched(p + 1, w), None => RuleResult::Failed } } }
impl<'a> ParseLiteral for Words<'a> { fn parse_string_literal(&self, p: usize, l: &str) -> RuleResult<()> { if self.0.get(p) == Some(&l) { RuleResult::Matched(p + 1, ()) } else { RuleResult::Failed } } }
impl<'input, 'a: 'input> ParseSlice<'input> for Words<'a> { type Slice = &'input [&'a str]; fn parse_slice(&'input self, a: usize, b: usize) -> &'input [&'a str] { &self.0[a..b] } }
peg::parser!{
  pub grammar g<'a>() for Words<'a> {
    pub rule greet() -> &'a str = "hello" n:[w if w.starts_with(char::is_uppercase)] { n }
    pub rule all() -> &'input [&'a str] = $([_]*)
    #[cache] pub rule c() -> Vec<&'a str> = ([^"x"])*
  }
}
fn main() {
    assert_eq!(g::greet(&Words(vec!["hello", "World"])), Ok("World"));
    assert_eq!(g::greet(&Words(vec!["hello", "world"])).unwrap_err().location, 1);
    assert_eq!(g::all(&Words(vec!["a", "b"])).unwrap().len(), 2);
    assert_eq!(g::c(&Words(vec!["a", "b"])).unwrap().len(), 2);
}'''),
 ("underscore_rules_plain", '''
peg::parser!{ grammar g() for str {
    rule _ = quiet!{ [' ' | '\\n']* }
    rule __() = quiet!{ [' ']+ }
    rule ___ = "--" [^'\\n']*
    pub rule list() -> usize = _ v:(word() ** (_ "," _)) _ ___? { v.len() }
    rule word() -> () = "w" __ "x" / "w"
}}
fn main() { assert_eq!(g::list(" w , w  x,w -- c"), Ok(3)); }'''),
 ("two_grammars_one_uses_other", '''
peg::parser!{ grammar a() for str { pub rule n() -> u32 = d:$(['0'..='9']+) {? d.parse().or(Err("num")) } } }
peg::parser!{ grammar b() for str { use super::a as other; pub rule l() -> Vec<u32> = ("{" s:$([^'{' | '}']*) "}" {? other::n(s).or(Err("inner number")) })* } }
mod nested { pub mod deeper { peg::parser!{ pub grammar c() for str { use crate::b; pub rule x() -> usize = s:$([_]*) {? b::l(s).map(|v| v.len()).map_err(|_| "list") } } } } }
fn main() { assert_eq!(b::l("{1}{22}").unwrap(), vec![1, 22]); assert_eq!(nested::deeper::c::x("{1}{2}"), Ok(2)); assert!(b::l("{x}").is_err()); }'''),
 ("mutable_reference_argument", '''
peg::parser!{ grammar g(log: &mut Vec<u32>) for str {
    pub rule top() -> usize = n:num() ** "," { log.push(n.len() as u32); n.len() }
    rule num() -> u32 = d:$(['0'..='9']+) { let v = d.parse().unwrap(); log.push(v); v }
}}
fn main() { let mut v = vec![]; assert_eq!(g::top("5,6", &mut v), Ok(2)); assert_eq!(v, vec![5, 6, 2]); }'''),
 ("generic_input_wrapper", '''
pub mod t { pub trait Named { fn name(&self) -> String; } impl Named for u8 { fn name(&self) -> String { format!("u{}", self) } } }
use t::Named;
peg::parser!{ grammar g() for [u8] {
    rule any<T: Named + Clone + 'static>(x: rule<T>) -> Vec<String> where T: std::fmt::Debug = v:x()* { v.iter().map(|x| x.name()).collect() }
    pub rule top() -> Vec<String> = any(<[_]>)
}}
fn main() { assert_eq!(g::top(&[1, 2]).unwrap(), vec!["u1", "u2"]); }'''),
 ("from_macro_rules", '''
macro_rules! make { ($name:ident, $lit:tt, $t:ident) => { peg::parser!{ grammar $name() for str { pub rule top() -> $t = $lit n:"x"* { n.len() as $t } } } } }
make!(g1, "a", u8);
make!(g2, "b", i64);
fn main() { assert_eq!(g1::top("axx"), Ok(2u8)); assert_eq!(g2::top("b"), Ok(0i64)); assert!(g2::top("a").is_err()); }'''),
 ("shadowing_prelude", '''
#[derive(Debug, PartialEq)] pub struct Vector; pub struct Failed; pub struct Matched; pub enum RuleResult { A } pub struct ParseError; pub struct ErrorState; pub mod core {} pub mod error {} pub fn panic() {} pub struct Parse; pub struct ParseElem; pub struct ParseLiteral;
peg::parser!{ grammar g() for str {
    pub rule top() -> Vector = "a"+ &['b'] $("b"?) ['b']? [_]*<0,1> { Vector }
    #[cache] pub rule c() -> u8 = "x" { 1 }
    pub rule p() -> u8 = precedence!{ a:(@) "+" b:@ { a + b } -- "1" { 1 } }
}}
fn main() { assert_eq!(g::top("aab"), Ok(Vector)); assert_eq!(g::c("x"), Ok(1)); assert_eq!(g::p("1+1"), Ok(2)); }'''),
 ("types_named_like_generated_ones", '''
#[derive(Clone, Copy, Debug, PartialEq)] pub struct Input(pub u8);
#[derive(Clone, Copy, Debug, PartialEq)] pub struct ParseState<'a>(pub &'a str);
#[derive(Clone, Debug, PartialEq)] pub enum PositionRepr { At(usize) }
#[derive(Clone, Debug, PartialEq)] pub struct ErrorState; #[derive(Clone, Debug, PartialEq)] pub struct RuleResult;
peg::parser!{ pub grammar g(i: Input, s: ParseState<'static>) for str {
    pub rule a() -> Input = "a" { Input(i.0 + 1) }
    #[cache] pub rule b() -> ParseState<'input> = s:$("b"+) { ParseState(s) }
    rule c(x: rule<Input>) -> PositionRepr = x() p:position!() { PositionRepr::At(p) }
    pub rule d() -> (PositionRepr, ErrorState, RuleResult) = p:c(<a()>) { (p, ErrorState, RuleResult) }
}}
fn main() {
    let (i, s) = (Input(4), ParseState("s"));
    assert_eq!(g::a("a", i.clone(), s.clone()), Ok(Input(5)));
    assert_eq!(g::b("bb", i.clone(), s.clone()), Ok(ParseState("bb")));
    assert_eq!(g::d("a", i, s), Ok((PositionRepr::At(1), ErrorState, RuleResult)));
}'''),
 ("variants_named_like_the_prelude", '''
#[derive(Clone, Debug, PartialEq)] pub enum Status { Ok, Err(u8), Some, None, Failed, Matched(u8) }
pub use Status::*;
peg::parser!{ pub grammar g() for str {
    #[cache] pub rule a() -> Status = "ok" { Ok } / "err" n:['0'..='9']? { Err(1) } / "some" { Some } / { None }
    pub rule opt() -> usize = x:a()? y:("," b:a() {b})* { y.len() }
    pub rule cond() -> Status = s:a() {? if s == None { std::result::Result::Err("status") } else { std::result::Result::Ok(s) } }
    #[cache_left_rec] pub rule l() -> Status = l() "!" { Failed } / a()
    pub rule p() -> Status = precedence!{ x:(@) "+" y:@ { Matched(1) } -- "(" x:p() ")" { x } "s" { Some } }
}}
fn main() {
    assert_eq!(g::a("ok").unwrap(), Ok); assert_eq!(g::opt("ok,err1,some").unwrap(), 2); assert_eq!(g::cond("some").unwrap(), Some);
    assert_eq!(g::cond("").unwrap_err().expected.tokens().collect::<Vec<_>>(), ["\\"err\\"", "\\"ok\\"", "\\"some\\"", "status"]);
    assert_eq!(g::l("ok!!").unwrap(), Failed); assert_eq!(g::p("s+(s+s)").unwrap(), Matched(1));
}'''),
]


def uniq(text, k):
    return text.replace("@(", "_%d(" % k).replace("@:", "_%d:" % k).replace("@<", "_%d<" % k)


def program(feats, rng=None):
    """one program from (index, feature) pairs"""
    rules, tests, uses = [], [], []
    for k, (name, use, r, t) in feats:
        rules.append("// FEATURE %s\n%s" % (name, uniq(r, k)))
        tests.append("fn t_%s_%d() {%s}" % (name, k, uniq(t, k).replace("G::", "g::")))
        if use and use not in uses:
            uses.append(use)
    seen, ul = set(), []
    for u in uses:
        for one in u.split(";"):
            one = one.strip()
            if one and one not in seen:
                seen.add(one)
                ul.append(one + ";")
    main = "fn main() {\n" + "".join(
        "  run(\"%s\", t_%s_%d);\n" % (n[1][0], n[1][0], n[0]) for n in feats) + "}\n"
    outer = OUTER
    return (outer + "peg::parser!{\n/// the grammar\npub grammar g() for str {\n" + "\n".join(ul) + "\n" + "\n".join(rules) + "}\n}\n"
            + "\n".join(tests) + "\n"
            + 'fn run(name: &str, f: fn()) { match std::panic::catch_unwind(f) { Ok(()) => println!("ok {}", name), Err(_) => println!("BAD {}", name) } }\n' + main)
