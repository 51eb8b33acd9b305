// A loop over a parameter whose argument can match nothing is not reported.
peg::parser!{
    grammar g() for str {
        rule t(x: rule<Option<()>>) = x()*
        pub rule a() = t(<"a"?>)
    }
}
fn main() {
    let r = g::a("b").is_ok();
    println!("OK terminated with {}", r)
}
