//! Writes down what every call returns, for comparison between builds.
use super::*;
use std::io::BufWriter;

impl<M: 'static> Program<M> {
    pub(super) fn dump(&self, o: &Opts, pf: Option<File>) {
        let profile = Profile::get(self.profile);
        let srcs = print::Srcs;
        let mut out = File::create(&o.out).expect("out file");
        let mut d = BufWriter::new(File::create(format!("{}.dump", o.out)).expect("dump file"));
        let mut feed = if o.feed.is_empty() { None } else { Some(BufWriter::new(File::create(&o.feed).expect("feed file"))) };
        let mut st = Stats::default();
        for (gi, es) in self.by_grammar() {
            if o.only.map_or(false, |x| x.0 != gi) {
                continue;
            }
            let g = gen::grammar(&profile, self.seed, self.batch, gi);
            st.add("grammars", 1);
            count_tags(&g, &mut st.tags);
            for e in es {
                let (_, ri, call, f) = e;
                let args = &g.rules[*ri].calls[*call];
                let ins = make_inputs(&g, *ri, args, &[self.seed, self.batch, gi, *ri as u64, *call as u64], o.inputs);
                for (ii, codes) in ins.iter().enumerate() {
                    if o.only.map_or(false, |x| x.1 != *ri || x.2 != *call || x.3.map_or(false, |k| k != ii)) {
                        continue;
                    }
                    let c = make_case(&g, codes);
                    let mut m = Model::new(&g, &c.min, &srcs, Mode::Transparent, 4000);
                    if m.run(*ri, args).is_err() {
                        continue;
                    }
                    self.begin(&pf, gi, *ri, *call, ii);
                    let s = self.call(f, &c, m.steps * 40 + 20_000, None);
                    self.end();
                    st.add("cases", 1);
                    st.add(match s.out { Out::Ok(_) => "returned_ok", Out::Err { .. } => "returned_err", Out::Panic(_) => "panicked" }, 1);
                    if m.steps >= 6 && !codes.is_empty() {
                        let h = codes.iter().fold(mix(gi ^ (*ri as u64) << 32 ^ (*call as u64) << 48 ^ self.batch << 20), |h, c| mix(h ^ *c as u64));
                        st.distinct.insert(h);
                    }
                    let t = feed::fingerprint(&s);
                    let short: String = t.chars().take(160).collect();
                    if let Some(f) = &mut feed {
                        let cs: Vec<String> = codes.iter().map(|c| c.to_string()).collect();
                        let _ = writeln!(f, "{}:{}:{}:{}\t{}\t{}\t{}\t{}\t{}\t{:016x}\t{:?}", gi, ri, call, ii, feed::kind_name(g.kind), c.min.base, c.min.stride,
                            m.steps * 40 + 20_000, cs.join(","), hash_str(&t), short);
                    }
                    let _ = writeln!(d, "{}:{}:{}:{}\t{:016x}\t{:?}", gi, ri, call, ii, hash_str(&t), short);
                }
            }
        }
        st.add("distinct_nontrivial", st.distinct.len() as u64);
        write_stats(&mut out, &st);
    }
}
