// A label named like a grammar argument changes the argument of the rules called after it.
peg::parser!{
    grammar shadowed(n: usize) for str {
        rule rest() -> usize = "b"* { n }
        pub rule top() -> usize = n:("a" { 7usize }) r:rest() { r + 0 * n }
    }
}
peg::parser!{
    grammar renamed(n: usize) for str {
        rule rest() -> usize = "b"* { n }
        pub rule top() -> usize = m:("a" { 7usize }) r:rest() { r + 0 * m }
    }
}
fn main() {
    let (s, r) = (shadowed::top("ab", 3), renamed::top("ab", 3));
    if s == r { println!("OK") } else { println!("DEFECT: rest() sees grammar argument {:?} when a label of the caller has its name, {:?} otherwise", s, r) }
}
