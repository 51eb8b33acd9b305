// Left recursion through a rule argument is not reported.
peg::parser!{
    grammar g() for str {
        rule t(x: rule<()>) = x() "q"
        pub rule a() -> () = t(<a()>) {} / "z" {}
    }
}
fn main() {
    let r = g::a("z").is_ok();
    println!("OK terminated with {}", r)
}
