//! Independence of calls: the result of every call is compared with the result
//! the same call gives on a fresh thread (and, on a sample, in a fresh process)
//! while calls are repeated, reordered, nested inside each other's actions and
//! input methods, interrupted by panics, and run from several threads at once.
use super::*;
use std::rc::Rc;
use std::sync::atomic::AtomicUsize;

struct One<'a, M> {
    g: u64,
    ri: usize,
    call: usize,
    ii: usize,
    f: &'a Fun<M>,
    case: Case,
    budget: u64,
    base: Out,
    /// hook calls in an undisturbed run
    points: u64,
}

const INJECTED: &str = "MONITOR: injected panic";
static IN_FLIGHT: AtomicUsize = AtomicUsize::new(0);
static SWITCHES: AtomicU64 = AtomicU64::new(0);
static LAST: AtomicUsize = AtomicUsize::new(usize::MAX);
static MAX_IN_FLIGHT: AtomicUsize = AtomicUsize::new(0);

fn fly<R>(f: impl FnOnce() -> R) -> R {
    let n = IN_FLIGHT.fetch_add(1, Ordering::SeqCst) + 1;
    MAX_IN_FLIGHT.fetch_max(n, Ordering::SeqCst);
    let r = f();
    IN_FLIGHT.fetch_sub(1, Ordering::SeqCst);
    r
}

/// run with a hook in the actions and guards, and in the input's methods
fn hooked<M: 'static>(p: &Program<M>, o: &One<M>, hook: Option<Rc<dyn Fn(u64)>>) -> Seen {
    let old = val::set_hook(hook.clone());
    let h2 = hook.map(|h| -> Box<dyn Fn(u64)> { Box::new(move |_| val::run_hook_from_input(&h)) });
    let r = p.call(o.f, &o.case, o.budget, h2);
    val::set_hook(old);
    r
}

fn report(out: &Mutex<File>, bad: &AtomicU64, profile: &Profile, seed: u64, batch: u64, o: (u64, usize, usize, usize), input: &str, base: &Out, what: &str, got: &Out) {
    if bad.fetch_add(1, Ordering::SeqCst) > 20 {
        return;
    }
    let g = gen::grammar(profile, seed, batch, o.0);
    let l = Obj::new()
        .str("type", "violation")
        .str("kind", "independence")
        .str("what", what)
        .num("g", o.0)
        .num("rule", o.1 as u64)
        .num("call", o.2 as u64)
        .num("input_no", o.3 as u64)
        .str("input", input)
        .str("model", &format!("on its own: {}", base.show()))
        .str("observed", &got.show())
        .str("rule_name", &g.rules[o.1].name)
        .str("args", &format!("{:?}", g.rules[o.1].calls[o.2]))
        .str("grammar", &grammar_src(profile, seed, batch, o.0))
        .end();
    let _ = writeln!(out.lock().unwrap(), "{}", l);
}

/// the outcome of one case in a process of its own
fn elsewhere(o: &Opts, c: (u64, usize, usize, usize)) -> Option<String> {
    let f = format!("{}.once", o.out);
    let st = std::process::Command::new(std::env::current_exe().ok()?)
        .args(["--mode", "once", "--inputs", &o.inputs.to_string(), "--out", &f, "--only", &format!("{}:{}:{}:{}", c.0, c.1, c.2, c.3)])
        .status()
        .ok()?;
    let r = std::fs::read_to_string(&f).ok();
    let _ = std::fs::remove_file(&f);
    if !st.success() { return None }
    r
}

impl<M: 'static> Program<M> {
    fn gather<'a>(&'a self, o: &Opts, grammars: &'a [(u64, Grammar)]) -> Vec<(One<'a, M>, Option<bool>)> {
        let srcs = print::Srcs;
        let mut v = vec![];
        for (gi, es) in self.by_grammar() {
            if o.only.map_or(false, |x| x.0 != gi) {
                continue;
            }
            let g = &grammars.iter().find(|(i, _)| *i == gi).unwrap().1;
            for e in es {
                let (_, ri, call, f) = e;
                let args = &g.rules[*ri].calls[*call];
                let ins = make_inputs(g, *ri, args, &[self.seed, self.batch, gi, *ri as u64, *call as u64], o.inputs);
                for (ii, codes) in ins.iter().enumerate() {
                    let case = make_case(g, codes);
                    let mut m = Model::new(g, &case.min, &srcs, Mode::Transparent, 4000);
                    let Ok(want) = m.run(*ri, args) else { continue };
                    let budget = m.steps * 40 + 20_000;
                    v.push((
                        One { g: gi, ri: *ri, call: *call, ii, f, case, budget, base: Out::Panic(String::new()), points: 0 },
                        Some(matches!(want, MOut::Ok(..))),
                    ));
                }
            }
        }
        v
    }

    pub(super) fn once(&self, o: &Opts) {
        let profile = Profile::get(self.profile);
        let gs: Vec<(u64, Grammar)> = self.by_grammar().iter().map(|(i, _)| (*i, gen::grammar(&profile, self.seed, self.batch, *i))).collect();
        let x = o.only.expect("--only");
        for (c, _) in self.gather(o, &gs) {
            if (c.ri, c.call, Some(c.ii)) == (x.1, x.2, x.3) {
                let s = self.call(c.f, &c.case, c.budget, None);
                std::fs::write(&o.out, format!("{:?}", s.out)).unwrap();
            }
        }
    }

    pub(super) fn isolate(&self, o: &Opts, pf: Option<File>) {
        let profile = Profile::get(self.profile);
        let out = Mutex::new(File::create(&o.out).expect("out file"));
        let bad = AtomicU64::new(0);
        let mut st = Stats::default();
        let gs: Vec<(u64, Grammar)> = self.by_grammar().iter().map(|(i, _)| (*i, gen::grammar(&profile, self.seed, self.batch, *i))).collect();
        for (_, g) in &gs {
            st.add("grammars", 1);
            count_tags(g, &mut st.tags);
        }
        let mut all: Vec<One<M>> = vec![];
        let mut rng = rng_for(&[self.seed, self.batch, 0x150]);
        let mut asked = 0;
        // what each call gives on a fresh thread
        for (mut c, model_ok) in self.gather(o, &gs) {
            self.begin(&pf, c.g, c.ri, c.call, c.ii);
            let (base, points) = std::thread::scope(|s| {
                std::thread::Builder::new()
                    .stack_size(512 << 20)
                    .spawn_scoped(s, || {
                        let n = Rc::new(Cell::new(0));
                        let n2 = n.clone();
                        let r = self.call(c.f, &c.case, c.budget, None).out;
                        hooked(self, &c, Some(Rc::new(move |_| n2.set(n2.get() + 1))));
                        (r, n.get())
                    })
                    .unwrap()
                    .join()
                    .unwrap()
            });
            self.end();
            c.base = base;
            c.points = points;
            st.add("baselines", 1);
            // a first result that the model did not expect, or one in many, is
            // asked of a process that has done nothing else
            let odd = matches!(c.base, Out::Ok(_)) != model_ok.unwrap();
            if (odd && asked < 60) || rng.below(900) == 0 {
                asked += 1;
                if let Some(t) = elsewhere(o, (c.g, c.ri, c.call, c.ii)) {
                    st.add("compared_with_fresh_process", 1);
                    if t != format!("{:?}", c.base) {
                        report(&out, &bad, &profile, self.seed, self.batch, (c.g, c.ri, c.call, c.ii), &c.case.min.text(), &c.base,
                            &format!("a process that does nothing else gets {}", t), &c.base);
                    }
                }
            }
            all.push(c);
        }
        if all.is_empty() {
            write_stats(&mut out.lock().unwrap(), &st);
            return;
        }
        let mut by_g: BTreeMap<u64, Vec<usize>> = BTreeMap::new();
        for (i, c) in all.iter().enumerate() {
            by_g.entry(c.g).or_default().push(i);
        }
        let check = |c: &One<M>, got: &Out, what: &str| {
            if *got != c.base {
                report(&out, &bad, &profile, self.seed, self.batch, (c.g, c.ri, c.call, c.ii), &c.case.min.text(), &c.base, what, got);
            }
        };
        // repeated, in shuffled order, across grammars
        let mut order: Vec<usize> = (0..all.len()).collect();
        for round in 0..2 {
            for i in (1..order.len()).rev() {
                order.swap(i, rng.below(i + 1));
            }
            for &i in &order {
                let c = &all[i];
                self.begin(&pf, c.g, c.ri, c.call, c.ii);
                let s = self.call(c.f, &c.case, c.budget, None);
                self.end();
                check(c, &s.out, if round == 0 { "called again after other calls" } else { "called again in another order" });
                st.add("calls_reordered", 1);
                if rng.below(4) == 0 {
                    self.begin(&pf, c.g, c.ri, c.call, c.ii);
                    let s = self.call(c.f, &c.case, c.budget, None);
                    self.end();
                    check(c, &s.out, "called twice in a row");
                    st.add("calls_repeated", 1);
                }
            }
        }
        // interrupted by a panic in an action, guard or input method
        for &i in &order {
            let c = &all[i];
            if c.points == 0 {
                continue;
            }
            let k = 1 + rng.below(c.points as usize) as u64;
            self.begin(&pf, c.g, c.ri, c.call, c.ii);
            let n = Rc::new(Cell::new(0u64));
            let s = fly(|| {
                hooked(self, c, Some(Rc::new(move |_| {
                    n.set(n.get() + 1);
                    if n.get() == k {
                        panic!("{}", INJECTED)
                    }
                })))
            });
            self.end();
            match s.out {
                Out::Panic(ref p) if p == INJECTED => st.add("calls_interrupted", 1),
                ref o => {
                    st.add("interruptions_not_reached", 1);
                    check(c, o, "the injected panic did not come through");
                }
            }
            for j in [i, *rng.pick(&by_g[&c.g]), *rng.pick(&by_g[&c.g])] {
                let d = &all[j];
                self.begin(&pf, d.g, d.ri, d.call, d.ii);
                let s = self.call(d.f, &d.case, d.budget, None);
                self.end();
                check(d, &s.out, "called after a call that panicked");
                st.add("calls_after_panic", 1);
            }
        }
        // nested in an action, guard or input method of another call, three deep
        let all_ref: &'static [One<M>] = unsafe { std::mem::transmute::<&[One<M>], &'static [One<M>]>(&all) };
        let me: &'static Program<M> = unsafe { std::mem::transmute::<&Program<M>, &'static Program<M>>(self) };
        for &i in &order {
            let c = &all[i];
            if c.points == 0 {
                continue;
            }
            let k = 1 + rng.below(c.points as usize) as u64;
            let inner: Vec<usize> = vec![if rng.below(3) == 0 { i } else { *rng.pick(&by_g[&c.g]) }, *rng.pick(&by_g[&c.g])];
            let kk = 1 + rng.below(6) as u64;
            let inner_panics = rng.below(4) == 0;
            self.begin(&pf, c.g, c.ri, c.call, c.ii);
            let got: Rc<RefCell<Vec<(usize, Out)>>> = Rc::default();
            let got2 = got.clone();
            let n = Rc::new(Cell::new(0u64));
            let s = fly(|| {
                hooked(self, c, Some(Rc::new(move |_| {
                    n.set(n.get() + 1);
                    if n.get() != k {
                        return;
                    }
                    let d = &all_ref[inner[0]];
                    let (got3, n2, deep) = (got2.clone(), Rc::new(Cell::new(0u64)), inner[1]);
                    let r = fly(|| {
                        hooked(me, d, Some(Rc::new(move |_| {
                            n2.set(n2.get() + 1);
                            if n2.get() == kk {
                                let e = &all_ref[deep];
                                let r = fly(|| hooked(me, e, None));
                                got3.borrow_mut().push((deep, r.out));
                                if inner_panics {
                                    panic!("{}", INJECTED)
                                }
                            }
                        })))
                    });
                    got2.borrow_mut().push((inner[0], r.out));
                })))
            });
            self.end();
            check(c, &s.out, "another call was made from inside an action or input method");
            st.add("calls_nesting", 1);
            for (j, r) in got.borrow().iter() {
                if matches!(r, Out::Panic(p) if p == INJECTED) {
                    st.add("nested_calls_interrupted", 1);
                    continue;
                }
                check(&all[*j], r, "made from inside an action or input method of another call");
                st.add("calls_nested", 1);
            }
        }
        // from several threads at once, with delays at random points
        let threads = 8;
        let per = (all.len() * 2 / threads).clamp(50, 4000);
        let done = AtomicU64::new(0);
        self.begin(&pf, all[0].g, all[0].ri, all[0].call, all[0].ii);
        std::thread::scope(|s| {
            for t in 0..threads {
                let (all, check, done, by_g) = (&all, &check, &done, &by_g);
                std::thread::Builder::new()
                    .stack_size(512 << 20)
                    .spawn_scoped(s, move || {
                        let mut rng = rng_for(&[self.seed, self.batch, 0x151, t as u64]);
                        let keys: Vec<u64> = by_g.keys().cloned().collect();
                        // phases where all threads work on the same grammar
                        for i in 0..per {
                            let group = &by_g[&keys[(i / 25) % keys.len()]];
                            let c = &all[*rng.pick(group)];
                            let jitter = rng.below(1 << 16) as u64;
                            let s = fly(|| {
                                hooked(self, c, Some(Rc::new(move |n| {
                                    if LAST.swap(t, Ordering::Relaxed) != t {
                                        SWITCHES.fetch_add(1, Ordering::Relaxed);
                                    }
                                    if mix(jitter ^ n) % 8 == 0 {
                                        if jitter % 16 == 0 {
                                            std::thread::sleep(Duration::from_micros(jitter >> 10));
                                        } else {
                                            std::thread::yield_now();
                                        }
                                    }
                                })))
                            });
                            check(c, &s.out, "called while other threads were parsing");
                            done.fetch_add(1, Ordering::Relaxed);
                            PROGRESS.fetch_add(2, Ordering::Relaxed);
                        }
                    })
                    .unwrap();
            }
        });
        self.end();
        st.add("calls_concurrent", done.load(Ordering::Relaxed));
        st.add("thread_switches_inside_parses", SWITCHES.load(Ordering::Relaxed));
        st.add("max_calls_in_flight", MAX_IN_FLIGHT.load(Ordering::Relaxed) as u64);
        let n: u64 = ["calls_reordered", "calls_repeated", "calls_after_panic", "calls_nesting", "calls_nested", "calls_concurrent"]
            .iter()
            .map(|k| st.n.get(k).copied().unwrap_or(0))
            .sum();
        st.add("cases", n);
        st.add("distinct_nontrivial", all.iter().filter(|c| c.points >= 2 && !c.case.min.codes.is_empty()).count() as u64);
        st.add("violations", bad.load(Ordering::SeqCst));
        let mut f = out.lock().unwrap();
        write_stats(&mut f, &st);
    }
}
