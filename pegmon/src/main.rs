//! pegmon-gen: writes generated programs.
use pegmon::*;
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let n = |i: usize| a[i].parse::<u64>().unwrap();
    gen::set_names(&std::env::var("PEGMON_NAMES").unwrap_or_default());
    match a[1].as_str() {
        // emit PROFILE SEED BATCH FROM COUNT OUT [SKIP,SKIP..]
        "emit" => {
            let skip: Vec<u64> = a.get(8).map_or(vec![], |s| s.split(',').map(|x| x.parse().unwrap()).collect());
            std::fs::write(&a[7], emit::program(&a[2], n(3), n(4), n(5), n(6), &skip)).unwrap()
        }
        // raw SEED BATCH COUNT DIR: grammars with the reference's verdict on each
        "raw" => {
            let mut idx = String::new();
            for i in 0..n(4) {
                let g = raw::grammar(n(2), n(3), i, 0);
                let p = gen::Profile::get("raw");
                let text = emit::grammar_text(&g, &p, n(2), n(3), i);
                std::fs::write(format!("{}/{}.rustpeg", a[5], i), text.trim_start_matches("peg::parser!{")).unwrap();
                idx.push_str(&format!("{:?}\n", wf::verdict(&g)));
            }
            std::fs::write(format!("{}/verdicts", a[5]), idx).unwrap()
        }
        // texts PROFILE SEED BATCH COUNT DIR: each grammar in several spellings that
        // differ in white space, comments, commas and semicolons only
        "texts" => {
            let p = gen::Profile::get(&a[2]);
            for i in 0..n(5) {
                let g = gen::grammar(&p, n(3), n(4), i);
                let st = |ws, semi, commas| print::Style { parens: 0, ws, semi, commas };
                for (k, s) in [st(0, 0, 0), st(1, 50, 50), st(2, 0, 100), st(2, 100, 0)].iter().enumerate() {
                    std::fs::write(format!("{}/{}.{}.rustpeg", a[6], i, k), emit::styled_text(&g, *s, k as u64 * 77 + i)).unwrap();
                }
            }
        }
        x => panic!("command {}", x),
    }
}
