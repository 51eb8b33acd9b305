fn main() {
    for i in ["", "[]", "[1, 2 ,3]", "[1,\n\n x", "1+2*3^2^2-4", "-(1-2)", "4294967296", "[4294967296]", "<é>", "<a><b>", "<a><", "aaa", "xa", "\u{2}abend", "\u{2}aben", "(1", "[1,2", "1+"] {
        println!("{:?} {}", i, nostd_lib::show(i));
    }
}
