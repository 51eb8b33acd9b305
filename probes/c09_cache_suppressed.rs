// #[cache] first computed under lookahead/quiet loses its failures for the error report.
peg::parser!{
    grammar cached() for str {
        #[cache] rule num() = ['0'..='9'] ['0'..='9']
        pub rule top() = !num() "a" / num() "x"
    }
}
peg::parser!{
    grammar plain() for str {
        rule num() = ['0'..='9'] ['0'..='9']
        pub rule top() = !num() "a" / num() "x"
    }
}
fn show(r: Result<(), peg::error::ParseError<peg::str::LineCol>>) -> String {
    match r { Ok(()) => "Ok".into(), Err(e) => e.to_string() }
}
fn main() {
    let (c, p) = (show(cached::top("1z")), show(plain::top("1z")));
    if c == p { println!("OK") } else { println!("DEFECT on \"1z\": with #[cache] {:?}, without {:?}", c, p) }
}
