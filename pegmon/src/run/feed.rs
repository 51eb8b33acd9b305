//! Runs cases another build wrote down, without generator or model, and
//! compares each result: for interpreters and sanitizers, where only the
//! parsers themselves should cost time.
use super::*;

pub(super) fn kind_name(k: Kind) -> &'static str {
    match k {
        Kind::Str => "str",
        Kind::Bytes => "bytes",
        Kind::Toks => "toks",
        Kind::Mon => "mon",
    }
}

pub(super) fn fingerprint(s: &Seen) -> String {
    format!("{:?} bad={:?} primitives={} ticks={}", s.out, s.bad, s.calls, s.ticks.len())
}

struct Fed<'a, M> {
    name: String,
    f: &'a Fun<M>,
    case: Case,
    budget: u64,
    want: u64,
    shown: String,
}

fn case(kind: Kind, codes: Vec<u32>, base: usize, stride: usize) -> Case {
    let min = MIn::new(kind, &codes, base, stride);
    Case {
        toks: if kind == Kind::Toks { codes.iter().map(|c| Tok::K(*c as u8)).collect() } else { vec![] },
        bytes: if kind == Kind::Bytes { codes.iter().map(|c| *c as u8).collect() } else { vec![] },
        s: if kind == Kind::Str { min.text() } else { String::new() },
        min,
    }
}

impl<M: 'static> Program<M> {
    pub(super) fn feed(&self, o: &Opts) {
        let text = std::fs::read_to_string(&o.feed).expect("feed file");
        let mut all = vec![];
        for l in text.lines() {
            let p: Vec<&str> = l.split('\t').collect();
            let c: Vec<usize> = p[0].split(':').map(|x| x.parse().unwrap()).collect();
            let n = |i: usize| p[i].parse::<usize>().unwrap();
            let kind = match p[1] { "str" => Kind::Str, "bytes" => Kind::Bytes, "toks" => Kind::Toks, _ => Kind::Mon };
            let codes = p[5].split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect();
            // a grammar this build could not compile has no entry
            if let Some(e) = self.entries.iter().find(|e| (e.0, e.1, e.2) == (c[0] as u64, c[1], c[2])) {
                all.push(Fed {
                    name: p[0].to_string(),
                    f: &e.3,
                    case: case(kind, codes, n(2), n(3)),
                    budget: n(4) as u64,
                    want: u64::from_str_radix(p[6], 16).unwrap(),
                    shown: p.get(7).unwrap_or(&"").to_string(),
                });
            }
        }
        let out = Mutex::new(File::create(&o.out).expect("out file"));
        let bad = AtomicU64::new(0);
        let (done, errs) = (AtomicU64::new(0), AtomicU64::new(0));
        let judge = |c: &Fed<M>, how: &str| {
            let s = self.call(c.f, &c.case, c.budget, None);
            done.fetch_add(1, Ordering::Relaxed);
            if matches!(s.out, Out::Err { .. }) {
                errs.fetch_add(1, Ordering::Relaxed);
            }
            let t = fingerprint(&s);
            if hash_str(&t) != c.want && bad.fetch_add(1, Ordering::Relaxed) < 20 {
                let l = Obj::new().str("type", "violation").str("case", &c.name).str("how", how).str("want", &c.shown).str("got", &t).end();
                let _ = writeln!(out.lock().unwrap(), "{}", l);
            }
        };
        for c in &all {
            judge(c, "alone");
        }
        if o.threads > 1 {
            std::thread::scope(|s| {
                for t in 0..o.threads {
                    let (all, judge) = (&all, &judge);
                    std::thread::Builder::new()
                        .stack_size(if cfg!(miri) { 8 << 20 } else { 256 << 20 })
                        .spawn_scoped(s, move || {
                            // all threads work on neighbouring cases, mostly of the same grammar
                            for i in 0..all.len() {
                                judge(&all[(i + t * 3) % all.len()], "with other threads");
                                if (i + t) % 7 == 0 {
                                    std::thread::yield_now();
                                }
                            }
                        })
                        .unwrap();
                }
            });
        }
        let mut st = Stats::default();
        st.add("calls", done.load(Ordering::Relaxed));
        st.add("failed_parses", errs.load(Ordering::Relaxed));
        st.add("cases", all.len() as u64);
        st.add("violations", bad.load(Ordering::Relaxed));
        write_stats(&mut out.lock().unwrap(), &st);
    }
}
