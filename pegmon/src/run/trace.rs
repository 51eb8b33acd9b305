//! The trace feature: one mode prints every case's trace between markers, the
//! other is the offline checker that reads such a log and compares it with the
//! evaluations the model makes.
use super::*;

fn loc(g: &Grammar, min: &MIn, p: usize) -> String {
    match g.kind {
        Kind::Str => {
            let (l, c) = min.line_col(p);
            format!("{}:{}", l, c)
        }
        Kind::Mon => format!("@{}", p),
        _ => p.to_string(),
    }
}

/// what the log of one pass should say
fn expected(g: &Grammar, c: &Case, ri: usize, args: &[Arg]) -> Option<(MOut, Vec<String>, u64)> {
    let srcs = print::Srcs;
    let mut m = Model::new(g, &c.min, &srcs, Mode::Memo, 60_000);
    m.trace = Some(vec![]);
    let r = run_model(&mut m, ri, args).ok()?;
    let t = m.trace.take().unwrap();
    let mut v = vec![];
    for (ri, t, p) in t {
        let n = &g.rules[ri].name;
        let l = |p| loc(g, &c.min, p);
        v.push(match t {
            Tr::Try => format!("Attempting to match rule `{}` at {}", n, l(p)),
            Tr::Match(e) => format!("Matched rule `{}` at {} to {}", n, l(p), l(e)),
            Tr::Fail => format!("Failed to match rule `{}` at {}", n, l(p)),
            Tr::CachedMatch => format!("Cached match of rule `{}` at {}", n, l(p)),
            Tr::CachedFail => format!("Cached fail of rule `{}` at {}", n, l(p)),
            // how levels are numbered is not promised
            Tr::Enter(_) => "Entering level".into(),
            Tr::Leave(_) => "Leaving level".into(),
        });
    }
    Some((r, v, m.steps))
}

/// attempts and outcomes must pair up whatever was evaluated
fn nested(log: &[String]) -> Result<u64, String> {
    let mut stack: Vec<String> = vec![];
    let mut n = 0;
    for l in log {
        if let Some(x) = l.strip_prefix("Attempting to match rule ") {
            stack.push(format!("rule {}", x));
            n += 1;
        } else if let Some(x) = l.strip_prefix("Entering level ") {
            stack.push(format!("level {}", x));
        } else if l.starts_with("Cached ") {
        } else {
            let (want, shown) = if let Some(x) = l.strip_prefix("Failed to match rule ") {
                (format!("rule {}", x), x.to_string())
            } else if let Some(x) = l.strip_prefix("Matched rule ") {
                match x.rfind(" to ") {
                    Some(i) => (format!("rule {}", &x[..i]), x.to_string()),
                    None => return Err(format!("line {:?}", l)),
                }
            } else if let Some(x) = l.strip_prefix("Leaving level ") {
                (format!("level {}", x), x.to_string())
            } else {
                return Err(format!("line {:?}", l));
            };
            match stack.pop() {
                Some(t) if t == want => {}
                t => return Err(format!("{} ends although {} was begun last", shown, t.unwrap_or("nothing".into()))),
            }
        }
    }
    if let Some(t) = stack.last() {
        return Err(format!("{} is never ended", t));
    }
    Ok(n)
}

impl<M: 'static> Program<M> {
    /// Print every case's trace between markers.
    pub(super) fn trace(&self, o: &Opts, pf: Option<File>) {
        let profile = Profile::get(self.profile);
        let mut out = File::create(&o.out).expect("out file");
        let mut n = 0;
        for (gi, es) in self.by_grammar() {
            if o.only.map_or(false, |x| x.0 != gi) {
                continue;
            }
            let g = gen::grammar(&profile, self.seed, self.batch, gi);
            for e in es {
                let (_, ri, call, f) = e;
                let args = &g.rules[*ri].calls[*call];
                let ins = make_inputs(&g, *ri, args, &[self.seed, self.batch, gi, *ri as u64, *call as u64], o.inputs);
                for (ii, codes) in ins.iter().enumerate() {
                    if o.only.map_or(false, |x| x.1 != *ri || x.2 != *call || x.3.map_or(false, |k| k != ii)) {
                        continue;
                    }
                    let c = make_case(&g, codes);
                    let srcs = print::Srcs;
                    let mut m = Model::new(&g, &c.min, &srcs, Mode::Transparent, 1500);
                    if m.run(*ri, args).is_err() {
                        continue;
                    }
                    self.begin(&pf, gi, *ri, *call, ii);
                    println!("@@CASE {}:{}:{}:{}", gi, ri, call, ii);
                    let seen = self.call(f, &c, m.steps * 40 + 20_000, None);
                    println!(
                        "@@END {}",
                        match &seen.out {
                            Out::Ok(_) => "ok".to_string(),
                            Out::Err { pos, .. } => format!("err {}", pos),
                            Out::Panic(p) => format!("panic {}", p.replace('\n', " ")),
                        }
                    );
                    self.end();
                    n += 1;
                }
            }
        }
        let _ = writeln!(out, "{}", Obj::new().str("type", "stats").raw("n", format!("{{\"logged\":{}}}", n)).end());
    }

    /// Read a log on standard input and judge it.
    pub(super) fn tracecheck(&self, o: &Opts) {
        let profile = Profile::get(self.profile);
        let mut out = File::create(&o.out).expect("out file");
        let mut st = Stats::default();
        let mut viol = 0;
        let mut gcache: Option<(u64, Grammar)> = None;
        let mut icache: Option<((u64, usize, usize), Vec<Vec<u32>>)> = None;
        let mut cur: Option<((u64, usize, usize, usize), Vec<String>)> = None;
        let mut stray = String::new();
        let mut distinct: HashSet<u64> = HashSet::new();
        for l in std::io::stdin().lines() {
            let l = l.unwrap();
            st.add("lines", 1);
            if let Some(c) = l.strip_prefix("@@CASE ") {
                let p: Vec<usize> = c.split(':').map(|x| x.parse().unwrap()).collect();
                cur = Some(((p[0] as u64, p[1], p[2], p[3]), vec![]));
            } else if let Some(end) = l.strip_prefix("@@END ") {
                let ((gi, ri, call, ii), raw) = cur.take().expect("log");
                if gcache.as_ref().map_or(true, |x| x.0 != gi) {
                    gcache = Some((gi, gen::grammar(&profile, self.seed, self.batch, gi)));
                    st.add("grammars", 1);
                    count_tags(&gcache.as_ref().unwrap().1, &mut st.tags);
                }
                let g = &gcache.as_ref().unwrap().1;
                let args = &g.rules[ri].calls[call];
                if icache.as_ref().map_or(true, |x| x.0 != (gi, ri, call)) {
                    icache = Some(((gi, ri, call), make_inputs(g, ri, args, &[self.seed, self.batch, gi, ri as u64, call as u64], o.inputs)));
                }
                let codes = &icache.as_ref().unwrap().1[ii];
                let c = make_case(g, codes);
                st.add("cases", 1);
                let mut bad: Option<(String, String, String)> = None;
                let mut log = vec![];
                for r in &raw {
                    match r.strip_prefix("[PEG_TRACE] ") {
                        Some(x) => log.push(x.to_string()),
                        None => bad = bad.or(Some(("a line that is no trace line".into(), String::new(), r.clone()))),
                    }
                }
                if bad.is_none() {
                    match nested(&log) {
                        Ok(n) => st.add("evaluations_paired", n),
                        Err(e) => bad = Some((format!("attempts and outcomes do not pair up: {}", e), String::new(), log.join("\n"))),
                    }
                }
                for l in &mut log {
                    if l.contains("ing level ") {
                        let n = l.rfind(' ').unwrap();
                        l.truncate(n);
                    }
                }
                if let (None, Some((want, one, steps))) = (&bad, expected(g, &c, ri, args)) {
                    let ok = matches!(want, MOut::Ok(..));
                    if ok != (end == "ok") || end.starts_with("panic") {
                        // the parser does not do what the model does: C01's subject
                        st.add("cases_not_judged_other_outcome", 1);
                    } else {
                        let mut want = one.clone();
                        if !ok {
                            want.extend(one.iter().cloned());
                        }
                        st.add("traces_compared", 1);
                        st.add("trace_lines_compared", want.len() as u64);
                        st.add("cached_lines", want.iter().filter(|l| l.starts_with("Cached")).count() as u64);
                        st.add("level_lines", want.iter().filter(|l| l.contains("ing level")).count() as u64);
                        st.add(if ok { "traces_one_pass" } else { "traces_two_passes" }, 1);
                        if steps >= 6 && one.len() >= 4 {
                            distinct.insert(one.iter().fold(gi, |h, l| mix(h ^ hash_str(l))));
                        }
                        if want != log {
                            let i = (0..).find(|i| want.get(*i) != log.get(*i)).unwrap();
                            let around = |v: &Vec<String>| {
                                v[i.saturating_sub(3).min(v.len())..(i + 3).min(v.len())].join(" | ")
                            };
                            bad = Some((
                                format!("line {} of the trace ({} lines instead of {})", i + 1, log.len(), want.len()),
                                around(&want),
                                around(&log),
                            ));
                        } else if st.samples.len() < 2 && want.len() > 12 && want.len() < 40 {
                            st.samples.push(
                                Obj::new()
                                    .str("grammar", &grammar_src(&profile, self.seed, self.batch, gi))
                                    .str("rule", &g.rules[ri].name)
                                    .str("input", &c.min.text())
                                    .str("trace", &log.join("\n"))
                                    .end(),
                            );
                        }
                    }
                }
                if let Some((what, want, got)) = bad {
                    viol += 1;
                    if viol <= 20 {
                        let l = Obj::new()
                            .str("type", "violation")
                            .str("kind", "trace")
                            .str("what", &what)
                            .num("g", gi)
                            .num("rule", ri as u64)
                            .num("call", call as u64)
                            .num("input_no", ii as u64)
                            .str("input", &c.min.text())
                            .str("model", &want)
                            .str("observed", &got)
                            .str("rule_name", &g.rules[ri].name)
                            .str("args", &format!("{:?}", args))
                            .str("grammar", &grammar_src(&profile, self.seed, self.batch, gi))
                            .end();
                        let _ = writeln!(out, "{}", l);
                    }
                }
            } else if let Some(c) = &mut cur {
                c.1.push(l);
            } else {
                stray = l;
                st.add("stray_lines", 1);
            }
        }
        if !stray.is_empty() {
            eprintln!("stray line {:?}", stray);
        }
        st.add("violations", viol);
        st.add("distinct_nontrivial", distinct.len() as u64);
        write_stats(&mut out, &st);
    }
}
