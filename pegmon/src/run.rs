//! The online monitor: runs the real parsers, watches what they do and judges
//! each observation against the reference model.
use crate::ast::*;
use crate::gen::{self, Profile};
use crate::input;
use crate::json::{self, Obj};
use crate::model::{MIn, MOut, Mode, Model, Tr};
use crate::print;
use crate::rng::{hash_str, mix, Rng};
use crate::val::{self, Tok, Val};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::fs::File;
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::Duration;

mod dump;
mod feed;
mod iso;
mod trace;

/// What a real parser reported.
#[derive(Clone, Debug, PartialEq)]
pub enum Out {
    Ok(Val),
    Err {
        pos: usize,
        /// line and column when the position has them
        lc: Option<(usize, usize)>,
        loc: String,
        tokens: Vec<String>,
        shown: String,
        set_shown: String,
    },
    Panic(String),
}

impl Out {
    pub fn show(&self) -> String {
        match self {
            Out::Ok(v) => format!("Ok({:?})", v),
            Out::Err { shown, pos, .. } => format!("Err({} [pos {}])", shown, pos),
            Out::Panic(p) => format!("panic: {}", p),
        }
    }
}

pub fn show_model(m: &MOut) -> String {
    match m {
        MOut::Ok(v, p) => format!("Ok({:?}) up to {}", v, p),
        MOut::Err { pos, exp } => format!("Err(at {} expected {:?})", pos, exp),
    }
}

/// State behind the monitored input type. The generated program implements
/// rust-peg's input traits on a newtype around this.
pub struct MonData {
    pub codes: Vec<char>,
    /// where each element is, and the end; increasing
    pub pos: Vec<usize>,
    pub calls: Cell<u64>,
    pub budget: Cell<u64>,
    /// positions handed to the parser so far
    given: RefCell<Vec<bool>>,
    pub bad: RefCell<Vec<String>>,
    pub repr_calls: Cell<u64>,
    pub eof_calls: Cell<u64>,
    pub slices: Cell<u64>,
    pub ticks: RefCell<Vec<(u32, usize)>>,
    /// called at every primitive with the call count (fault injection, re-entrancy)
    pub hook: RefCell<Option<Box<dyn Fn(u64)>>>,
}

pub const BUDGET_MSG: &str = "MONITOR: primitive budget exhausted";

impl MonData {
    pub fn new(codes: &[u32], pos: &[usize], budget: u64) -> MonData {
        MonData {
            codes: codes.iter().map(|c| char::from_u32(*c).unwrap()).collect(),
            pos: pos.to_vec(),
            calls: Cell::new(0),
            budget: Cell::new(budget),
            given: RefCell::new(vec![false; codes.len() + 1]),
            bad: RefCell::new(vec![]),
            repr_calls: Cell::new(0),
            eof_calls: Cell::new(0),
            slices: Cell::new(0),
            ticks: RefCell::new(vec![]),
            hook: RefCell::new(None),
        }
    }
    fn step(&self) {
        let n = self.calls.get() + 1;
        self.calls.set(n);
        if n > self.budget.get() {
            panic!("{}", BUDGET_MSG);
        }
        if let Some(h) = &*self.hook.borrow() {
            h(n)
        }
    }
    fn idx(&self, what: &str, p: usize) -> Option<usize> {
        let i = self.pos.binary_search(&p).ok();
        if i.map_or(true, |i| !self.given.borrow()[i]) {
            let mut b = self.bad.borrow_mut();
            if b.len() < 4 {
                b.push(format!("{} called with position {} that no primitive returned", what, p));
            }
        }
        i
    }
    fn give(&self, i: usize) -> usize {
        self.given.borrow_mut()[i] = true;
        self.pos[i]
    }
    pub fn start(&self) -> usize {
        self.give(0)
    }
    pub fn is_eof(&self, p: usize) -> bool {
        self.step();
        self.eof_calls.set(self.eof_calls.get() + 1);
        self.idx("is_eof", p).map_or(true, |i| i >= self.codes.len())
    }
    pub fn repr(&self, p: usize) -> usize {
        self.repr_calls.set(self.repr_calls.get() + 1);
        self.idx("position_repr", p);
        p
    }
    pub fn elem(&self, p: usize) -> Option<(usize, char)> {
        self.step();
        let i = self.idx("parse_elem", p)?;
        let c = *self.codes.get(i)?;
        Some((self.give(i + 1), c))
    }
    pub fn literal(&self, p: usize, lit: &str) -> Option<usize> {
        self.step();
        let i = self.idx("parse_string_literal", p)?;
        let want: Vec<char> = lit.chars().collect();
        if i + want.len() <= self.codes.len() && self.codes[i..i + want.len()] == want[..] {
            Some(self.give(i + want.len()))
        } else {
            None
        }
    }
    pub fn slice(&self, a: usize, b: usize) -> val::MonSlice {
        self.slices.set(self.slices.get() + 1);
        self.idx("parse_slice", a);
        self.idx("parse_slice", b);
        if a > b {
            self.bad.borrow_mut().push(format!("parse_slice({}, {}) backwards", a, b));
        }
        val::MonSlice(a, b)
    }
    pub fn tick(&self, p: usize, id: u32) -> usize {
        self.step();
        self.idx("##method", p);
        self.ticks.borrow_mut().push((id, p));
        p
    }
}

pub enum Fun<M> {
    Str(fn(&str) -> Out),
    Bytes(fn(&[u8]) -> Out),
    Toks(fn(&[Tok]) -> Out),
    Mon(fn(&M) -> Out),
}

pub struct Entry<M> {
    pub g: u64,
    pub rule: usize,
    pub call: usize,
    pub f: Fun<M>,
}

/// The generated program: entry points, and how to make a monitored input.
pub struct Program<M> {
    pub profile: &'static str,
    pub seed: u64,
    pub batch: u64,
    pub entries: Vec<(u64, usize, usize, Fun<M>)>,
    pub mon: fn(MonData) -> M,
    pub data: fn(&M) -> &MonData,
}

#[derive(Clone, Debug)]
struct Opts {
    prop: String,
    out: String,
    inputs: usize,
    only: Option<(u64, usize, usize, Option<usize>)>,
    mode: String,
    verbose: bool,
    limit: u64,
    hang_s: u64,
    wall: u64,
    feed: String,
    threads: usize,
}

fn opts() -> Opts {
    let mut o = Opts {
        prop: "ALL".into(),
        out: "/dev/stderr".into(),
        inputs: 60,
        only: None,
        mode: "diff".into(),
        verbose: false,
        limit: 20_000,
        hang_s: 20,
        wall: 100_000,
        feed: String::new(),
        threads: 1,
    };
    let a: Vec<String> = std::env::args().collect();
    let mut i = 1;
    while i < a.len() {
        let v = a.get(i + 1).cloned().unwrap_or_default();
        match a[i].as_str() {
            "--prop" => o.prop = v,
            "--out" => o.out = v,
            "--inputs" => o.inputs = v.parse().unwrap(),
            "--feed" => o.feed = v,
            "--threads" => o.threads = v.parse().unwrap(),
            "--mode" => o.mode = v,
            "--limit" => o.limit = v.parse().unwrap(),
            "--hang" => o.hang_s = v.parse().unwrap(),
            "--wall" => o.wall = v.parse().unwrap(),
            "--only" => {
                let p: Vec<usize> = v.split(':').map(|x| x.parse().unwrap()).collect();
                o.only = Some((p[0] as u64, p[1], p[2], p.get(3).copied()));
            }
            "--verbose" => {
                o.verbose = true;
                i += 1;
                continue;
            }
            x => panic!("option {}", x),
        }
        i += 2;
    }
    o
}

/// Which observations a property judges.
#[derive(Clone, Copy, Default)]
pub struct Mask {
    pub recog: bool,
    pub value: bool,
    pub errpos: bool,
    pub errset: bool,
    pub linecol: bool,
    pub protocol: bool,
    pub ticks: bool,
    pub termination: bool,
    pub lossy_finding: bool,
}

pub fn mask(prop: &str) -> Mask {
    let m = Mask::default();
    match prop {
        "recog" => Mask { recog: true, ..m },
        "value" => Mask { recog: true, value: true, ..m },
        // acceptance, and where a complaint about trailing input is located
        "eof" => Mask { recog: true, value: true, errpos: true, errset: true, ..m },
        "suppress" => Mask { recog: true, value: true, errpos: true, errset: true, ..m },
        "errloc" => Mask { errpos: true, ..m },
        "errset" => Mask { errset: true, ..m },
        "err" => Mask { recog: true, errpos: true, errset: true, ..m },
        "linecol" => Mask { recog: true, value: true, linecol: true, ..m },
        "cache" => Mask { recog: true, value: true, errpos: true, errset: true, ticks: true, lossy_finding: true, ..m },
        "inputs" => Mask { recog: true, value: true, errpos: true, errset: true, protocol: true, ..m },
        "termination" => Mask { termination: true, ..m },
        "all" | "ALL" => Mask {
            recog: true, value: true, errpos: true, errset: true, linecol: true, protocol: true, ticks: true,
            termination: true, lossy_finding: true,
        },
        _ => panic!("unknown judge {}", prop),
    }
}

#[derive(Default)]
struct Stats {
    n: BTreeMap<&'static str, u64>,
    distinct: HashSet<u64>,
    tags: BTreeMap<&'static str, u64>,
    samples: Vec<String>,
}
impl Stats {
    fn add(&mut self, k: &'static str, v: u64) {
        *self.n.entry(k).or_insert(0) += v;
    }
}

static PROGRESS: AtomicU64 = AtomicU64::new(0);
static CASE: Mutex<String> = Mutex::new(String::new());

pub struct Case {
    pub min: MIn,
    pub toks: Vec<Tok>,
    pub bytes: Vec<u8>,
    pub s: String,
}

pub fn mon_params(kind: Kind, h: u64) -> (usize, usize) {
    if kind == Kind::Mon {
        ([0, 0, 7, 100, 1 << 40, usize::MAX - 1_000_000, usize::MAX][(h % 7) as usize], [1, 1, 2, 3, 10, 0, 0, 1 << 32][((h >> 8) % 8) as usize])
    } else {
        (0, 1)
    }
}

pub fn make_case(g: &Grammar, codes: &[u32]) -> Case {
    let h = codes.iter().fold(hash_str(&g.name), |h, c| mix(h ^ *c as u64));
    let (base, stride) = mon_params(g.kind, h);
    let min = MIn::new(g.kind, codes, base, stride);
    Case {
        toks: if g.kind == Kind::Toks { codes.iter().map(|c| Tok::K(*c as u8)).collect() } else { vec![] },
        bytes: if g.kind == Kind::Bytes { codes.iter().map(|c| *c as u8).collect() } else { vec![] },
        s: if matches!(g.kind, Kind::Str) { min.text() } else { String::new() },
        min,
    }
}

pub fn make_inputs(g: &Grammar, ri: usize, args: &[Arg], seed: &[u64], n: usize) -> Vec<Vec<u32>> {
    let srcs = print::Srcs;
    input::inputs(g, ri, args, seed, n, &mut |codes| {
        let c = MIn::new(g.kind, codes, 0, 1);
        let mut m = Model::new(g, &c, &srcs, Mode::Transparent, 3000);
        matches!(run_model(&mut m, ri, args), Ok(MOut::Ok(..)))
    })
}

fn panic_text(p: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else {
        "(other)".into()
    }
}

pub struct Seen {
    pub out: Out,
    pub bad: Vec<String>,
    pub ticks: Vec<(u32, usize)>,
    pub calls: u64,
    pub repr_calls: u64,
}

impl<M: 'static> Program<M> {
    pub fn call(&self, f: &Fun<M>, c: &Case, budget: u64, hook: Option<Box<dyn Fn(u64)>>) -> Seen {
        let mut seen = Seen { out: Out::Panic(String::new()), bad: vec![], ticks: vec![], calls: 0, repr_calls: 0 };
        match f {
            Fun::Str(f) => {
                let s: &str = &c.s;
                let old = val::set_base((s.as_ptr() as usize, s.len(), 1));
                seen.out = catch_unwind(AssertUnwindSafe(|| f(s))).unwrap_or_else(|p| Out::Panic(panic_text(p)));
                val::set_base(old);
            }
            Fun::Bytes(f) => {
                let s: &[u8] = &c.bytes;
                let old = val::set_base((s.as_ptr() as usize, s.len(), 1));
                seen.out = catch_unwind(AssertUnwindSafe(|| f(s))).unwrap_or_else(|p| Out::Panic(panic_text(p)));
                val::set_base(old);
            }
            Fun::Toks(f) => {
                let s: &[Tok] = &c.toks;
                let es = std::mem::size_of::<Tok>();
                let old = val::set_base((s.as_ptr() as usize, s.len() * es, es));
                seen.out = catch_unwind(AssertUnwindSafe(|| f(s))).unwrap_or_else(|p| Out::Panic(panic_text(p)));
                val::set_base(old);
            }
            Fun::Mon(f) => {
                let d = MonData::new(&c.min.codes, &c.min.pos, budget);
                *d.hook.borrow_mut() = hook;
                let m = (self.mon)(d);
                let old = val::set_base((0, 0, 1));
                seen.out = catch_unwind(AssertUnwindSafe(|| f(&m))).unwrap_or_else(|p| Out::Panic(panic_text(p)));
                val::set_base(old);
                let d = (self.data)(&m);
                seen.bad = d.bad.borrow().clone();
                seen.ticks = d.ticks.borrow().clone();
                seen.calls = d.calls.get();
                seen.repr_calls = d.repr_calls.get();
            }
        }
        seen
    }

    pub fn main(self) {
        let o = opts();
        std::panic::set_hook(Box::new(|_| {}));
        if o.mode == "feed" {
            if cfg!(miri) {
                return self.feed(&o);
            }
            let r = std::thread::Builder::new().stack_size(768 << 20).spawn(move || self.feed(&o)).unwrap().join();
            std::process::exit(if r.is_ok() { 0 } else { 70 });
        }
        let prog_file = File::create(format!("{}.progress", o.out)).ok();
        let hang = o.hang_s;
        let out2 = o.out.clone();
        std::thread::spawn(move || {
            let mut last = (u64::MAX, 0);
            loop {
                std::thread::sleep(Duration::from_millis(500));
                let p = PROGRESS.load(Ordering::Relaxed);
                if p == u64::MAX {
                    return;
                }
                if p == last.0 {
                    last.1 += 1;
                    if last.1 * 500 > hang * 1000 && p % 2 == 1 {
                        let c = CASE.lock().map(|c| c.clone()).unwrap_or_default();
                        let _ = std::fs::write(format!("{}.hang", out2), c);
                        std::process::exit(88);
                    }
                } else {
                    last = (p, 0);
                }
            }
        });
        let h = std::thread::Builder::new()
            .stack_size(768 << 20)
            .spawn(move || match o.mode.as_str() {
                "diff" => self.diff(&o, prog_file),
                "trace" => self.trace(&o, prog_file),
                "isolate" => self.isolate(&o, prog_file),
                "tracecheck" => self.tracecheck(&o),
                "dump" => self.dump(&o, prog_file),
                "once" => self.once(&o),
                m => panic!("mode {}", m),
            })
            .unwrap();
        let r = h.join();
        PROGRESS.store(u64::MAX, Ordering::Relaxed);
        if let Err(p) = r {
            eprintln!("monitor failed: {}", panic_text(p));
            std::process::exit(70);
        }
    }

    fn begin(&self, pf: &Option<File>, g: u64, ri: usize, call: usize, ii: usize) {
        let n = PROGRESS.load(Ordering::Relaxed);
        let t = format!("{}:{}:{}:{}", g, ri, call, ii);
        if let Some(f) = pf {
            let mut b = [b' '; 40];
            b[..t.len()].copy_from_slice(t.as_bytes());
            let _ = f.write_all_at(&b, 0);
        }
        *CASE.lock().unwrap() = t;
        PROGRESS.store((n | 1) + if n % 2 == 1 { 2 } else { 0 }, Ordering::Relaxed);
    }
    fn end(&self) {
        PROGRESS.fetch_add(1, Ordering::Relaxed);
    }

    pub fn by_grammar(&self) -> Vec<(u64, Vec<&(u64, usize, usize, Fun<M>)>)> {
        let mut v: Vec<(u64, Vec<&(u64, usize, usize, Fun<M>)>)> = vec![];
        for e in &self.entries {
            match v.last_mut() {
                Some((g, es)) if *g == e.0 => es.push(e),
                _ => v.push((e.0, vec![e])),
            }
        }
        v
    }

    fn diff(&self, o: &Opts, pf: Option<File>) {
        let mk = mask(&o.prop);
        let profile = Profile::get(self.profile);
        let srcs = print::Srcs;
        let mut out = File::create(&o.out).expect("out file");
        let mut st = Stats::default();
        let mut viol = 0u64;
        let t0 = std::time::Instant::now();
        for (gi, es) in self.by_grammar() {
            if o.only.map_or(false, |x| x.0 != gi) {
                continue;
            }
            if t0.elapsed().as_secs() > o.wall {
                st.add("grammars_skipped_for_time", 1);
                continue;
            }
            let g = gen::grammar(&profile, self.seed, self.batch, gi);
            let has_simple = g.rules.iter().any(|r| r.cache == Cache::Simple);
            st.add("grammars", 1);
            count_tags(&g, &mut st.tags);
            for e in es {
                let (_, ri, call, f) = e;
                if o.only.map_or(false, |x| x.1 != *ri || x.2 != *call) {
                    continue;
                }
                st.add("entry_points", 1);
                let args = &g.rules[*ri].calls[*call];
                let ins = make_inputs(&g, *ri, args, &[self.seed, self.batch, gi, *ri as u64, *call as u64], o.inputs);
                for (ii, codes) in ins.iter().enumerate() {
                    if o.only.map_or(false, |x| x.3.map_or(false, |k| k != ii)) {
                        continue;
                    }
                    let c = make_case(&g, codes);
                    let mut m = Model::new(&g, &c.min, &srcs, Mode::Transparent, o.limit);
                    let want = match m.run(*ri, args) {
                        Ok(w) => w,
                        Err(_) => {
                            st.add("skipped_model_limit", 1);
                            continue;
                        }
                    };
                    let memo = if has_simple {
                        let mut m2 = Model::new(&g, &c.min, &srcs, Mode::Memo, o.limit);
                        m2.run(*ri, args).ok().map(|w| (w, m2.lossy, m2.cache_hits, m2.ticks.clone()))
                    } else {
                        None
                    };
                    self.begin(&pf, gi, *ri, *call, ii);
                    let seen = self.call(f, &c, m.steps * 40 + 20_000, None);
                    self.end();
                    st.add("cases", 1);
                    let mut complaints: Vec<(String, String)> = vec![];
                    judge(&mk, &g, &c.min, &want, &m, &memo, &seen, &mut complaints, &mut st);
                    // coverage
                    let nontrivial = m.steps >= 6 && !codes.is_empty();
                    match &want {
                        MOut::Ok(v, p) => {
                            st.add("model_ok", 1);
                            if *p < c.min.end() {
                                st.add("ok_partial_no_eof", 1);
                            }
                            if v.size() >= 4 {
                                st.add("ok_value_size_ge4", 1);
                            }
                        }
                        MOut::Err { pos, exp } => {
                            st.add("model_err", 1);
                            if *pos > c.min.start() {
                                st.add("err_past_start", 1);
                            }
                            if exp.len() >= 2 {
                                st.add("err_set_ge2", 1);
                            }
                            if exp.is_empty() {
                                st.add("err_set_empty", 1);
                            }
                        }
                    }
                    if m.suppressed_marks > 0 {
                        st.add("cases_with_suppressed_failures", 1);
                    }
                    if m.growths > 0 {
                        st.add("cases_growing_left_recursion", 1);
                        st.add("left_recursion_growths", m.growths);
                    }
                    if let Some((_, lossy, hits, _)) = &memo {
                        if *hits > 0 {
                            st.add("cases_with_cache_hits", 1);
                            st.add("cache_hits", *hits);
                        }
                        if *lossy {
                            st.add("cases_cache_lossy", 1);
                        }
                    }
                    st.add("model_steps", m.steps);
                    st.add("failure_marks", m.marks);
                    if nontrivial {
                        st.add("nontrivial", 1);
                        let h = codes.iter().fold(mix(gi ^ (*ri as u64) << 32 ^ (*call as u64) << 48 ^ self.batch << 20), |h, c| mix(h ^ *c as u64));
                        st.distinct.insert(h);
                        if st.samples.len() < 3 && m.steps > 25 && (st.n["cases"] % 97 == 0 || st.samples.is_empty()) {
                            st.samples.push(
                                Obj::new()
                                    .str("grammar", &grammar_src(&profile, self.seed, self.batch, gi))
                                    .str("rule", &g.rules[*ri].name)
                                    .str("input", &c.min.text())
                                    .str("model", &show_model(&want))
                                    .str("observed", &seen.out.show())
                                    .end(),
                            );
                        }
                    }
                    if o.verbose {
                        eprintln!("{}:{}:{}:{} {:?}\n  want {}\n  got  {}", gi, ri, call, ii, c.min.text(), show_model(&want), seen.out.show());
                    }
                    for (kind, what) in complaints {
                        let finding = kind == "finding";
                        if !finding {
                            viol += 1;
                        }
                        if viol > 40 && !finding {
                            continue;
                        }
                        let l = Obj::new()
                            .str("type", if finding { "finding" } else { "violation" })
                            .str("kind", &kind)
                            .str("what", &what)
                            .num("g", gi)
                            .num("rule", *ri as u64)
                            .num("call", *call as u64)
                            .num("input_no", ii as u64)
                            .str("input", &c.min.text())
                            .str("model", &show_model(&want))
                            .str("observed", &seen.out.show())
                            .str("rule_name", &g.rules[*ri].name)
                            .str("args", &format!("{:?}", args))
                            .str("grammar", &grammar_src(&profile, self.seed, self.batch, gi))
                            .end();
                        let _ = writeln!(out, "{}", l);
                    }
                }
            }
        }
        st.add("violations", viol);
        st.add("distinct_nontrivial", st.distinct.len() as u64);
        write_stats(&mut out, &st);
    }

}

pub fn grammar_src(p: &Profile, seed: u64, batch: u64, gi: u64) -> String {
    let g = gen::grammar(p, seed, batch, gi);
    crate::emit::grammar_text(&g, p, seed, batch, gi)
}

fn write_stats(out: &mut File, st: &Stats) {
    let n: Vec<String> = st.n.iter().map(|(k, v)| format!("{}:{}", json::s(k), v)).collect();
    let t: Vec<String> = st.tags.iter().map(|(k, v)| format!("{}:{}", json::s(k), v)).collect();
    let l = Obj::new()
        .str("type", "stats")
        .raw("n", format!("{{{}}}", n.join(",")))
        .raw("constructs", format!("{{{}}}", t.join(",")))
        .raw("samples", format!("[{}]", st.samples.join(",")))
        .end();
    let _ = writeln!(out, "{}", l);
}

fn count_tags(g: &Grammar, t: &mut BTreeMap<&'static str, u64>) {
    fn walk(e: &E, t: &mut BTreeMap<&'static str, u64>) {
        *t.entry(e.tag()).or_insert(0) += 1;
        e.children(&mut |c| walk(c, t));
    }
    for r in &g.rules {
        walk(&r.expr, t);
        match r.cache {
            Cache::Simple => *t.entry("#[cache]").or_insert(0) += 1,
            Cache::LeftRec => *t.entry("#[cache_left_rec]").or_insert(0) += 1,
            _ => {}
        }
        if r.no_eof {
            *t.entry("#[no_eof]").or_insert(0) += 1;
        }
        if !r.params.is_empty() {
            *t.entry("rule_params").or_insert(0) += 1;
        }
    }
    if !g.gargs.is_empty() {
        *t.entry("grammar_args").or_insert(0) += 1;
    }
    *t.entry(match g.kind {
        Kind::Str => "input:str",
        Kind::Bytes => "input:[u8]",
        Kind::Toks => "input:[T]",
        Kind::Mon => "input:custom",
    })
    .or_insert(0) += 1;
}

/// How an expected set is to be displayed.
pub fn display_set(tokens: &[String]) -> String {
    let mut t = tokens.to_vec();
    t.sort();
    match t.len() {
        0 => "<unreported>".into(),
        1 => t[0].clone(),
        _ => format!("one of {}", t.join(", ")),
    }
}

fn judge(
    mk: &Mask,
    g: &Grammar,
    min: &MIn,
    want: &MOut,
    m: &Model,
    memo: &Option<(MOut, bool, u64, Vec<(u32, usize)>)>,
    seen: &Seen,
    out: &mut Vec<(String, String)>,
    st: &mut Stats,
) {
    let mut bad = |k: &str, w: String| out.push((k.to_string(), w));
    if let Out::Panic(p) = &seen.out {
        if p == BUDGET_MSG {
            if mk.termination || mk.recog {
                bad("termination", format!("parser made {} primitive calls; the model needs {} steps", seen.calls, m.steps));
            }
        } else if mk.recog || mk.value || mk.errpos || mk.errset || mk.linecol {
            bad("panic", format!("parser panicked: {}", p));
        }
        return;
    }
    st.add("judged", 1);
    match (want, &seen.out) {
        (MOut::Ok(v, _), Out::Ok(w)) => {
            if mk.value {
                st.add("values_compared", 1);
                if v != w {
                    bad("value", format!("result {:?} instead of {:?}", w, v));
                }
            }
        }
        (MOut::Err { pos, exp }, Out::Err { pos: rp, lc, loc, tokens, shown, set_shown }) => {
            let got: BTreeSet<String> = tokens.iter().map(|t| print::norm(t)).collect();
            let exp_n: BTreeSet<String> = exp.iter().map(|t| print::norm(t)).collect();
            let mut matches_transparent = true;
            let cmp = |pos: usize, exp: &BTreeSet<String>| -> Vec<(&'static str, String)> {
                let mut v = vec![];
                if pos != *rp {
                    v.push(("errpos", format!("error reported at {} instead of {}", rp, pos)));
                } else if *exp != got {
                    v.push(("errset", format!("expected set {:?} instead of {:?}", got, exp)));
                }
                v
            };
            let mut diffs = cmp(*pos, &exp_n);
            if !diffs.is_empty() {
                matches_transparent = false;
                if let Some((MOut::Err { pos: p2, exp: e2 }, lossy, _, _)) = memo {
                    let e2: BTreeSet<String> = e2.iter().map(|t| print::norm(t)).collect();
                    if *lossy && cmp(*p2, &e2).is_empty() {
                        diffs.clear();
                    }
                }
            }
            if m.lossy {
                // #[cache_left_rec] results recorded under suppression: nothing is promised
                diffs.clear();
                st.add("error_reports_not_judged_lossy", 1);
            } else {
                st.add("error_reports_compared", 1);
            }
            if !matches_transparent && diffs.is_empty() && !m.lossy && mk.lossy_finding {
                bad(
                    "finding",
                    format!("#[cache] result first computed under suppression: reported {} {:?}, without #[cache] {} {:?}", rp, got, pos, exp_n),
                );
            }
            for (k, w) in diffs {
                if (k == "errpos" && mk.errpos) || (k == "errset" && mk.errset) {
                    bad(k, w);
                }
            }
            if mk.errset {
                let mut sorted = tokens.clone();
                sorted.sort();
                sorted.dedup();
                if sorted.len() != tokens.len() {
                    bad("errset", format!("duplicate expectations in {:?}", tokens));
                }
                let d = display_set(tokens);
                if *set_shown != d || *shown != format!("error at {}: expected {}", loc, d) {
                    bad("display", format!("error displayed as {:?} / {:?}", shown, set_shown));
                }
            }
            if mk.linecol {
                st.add("line_col_compared", 1);
                if let Some(lc) = lc {
                    // judged at the position actually reported, so that a wrong
                    // position is somebody else's problem
                    if min.index.contains_key(rp) {
                        let w = min.line_col(*rp);
                        if *lc != w || *loc != format!("{}:{}", w.0, w.1) {
                            bad("linecol", format!("offset {} reported as line {} column {} ({}) instead of {:?}", rp, lc.0, lc.1, loc, w));
                        }
                    } else {
                        bad("linecol", format!("offset {} is not a character boundary of the input", rp));
                    }
                }
            }
        }
        (_, _) => {
            if mk.recog {
                bad("recognition", format!("model and parser disagree on acceptance"));
            }
        }
    }
    if mk.ticks && g.kind == Kind::Mon {
        // every evaluation of a memoized rule's body announced itself
        let mut per: HashMap<(u32, usize), usize> = HashMap::new();
        for t in &seen.ticks {
            if t.0 >= 5000 && t.0 < 6000 {
                *per.entry(*t).or_insert(0) += 1;
            }
        }
        if !per.is_empty() {
            st.add("memo_positions_watched", per.len() as u64);
            let passes = if matches!(seen.out, Out::Ok(_)) { 1 } else { 2 };
            for ((id, p), n) in &per {
                if *n > passes {
                    bad("evaluated_twice", format!("#[cache] rule {} evaluated its body {} times at {} in {} passes", id - 5000, n, p, passes));
                }
            }
        }
    }
    if mk.protocol && g.kind == Kind::Mon {
        st.add("protocol_runs", 1);
        st.add("protocol_primitive_calls", seen.calls);
        for b in &seen.bad {
            bad("protocol", b.clone());
        }
    }
}

fn run_model<'g>(m: &mut Model<'g>, ri: usize, args: &[Arg]) -> Result<MOut, crate::model::Limit> {
    // arguments of exported rules are plain data; leak a copy to get the lifetime
    let a: &'static [Arg] = Box::leak(args.to_vec().into_boxed_slice());
    m.run(ri, a)
}

pub fn rng_for(p: &[u64]) -> Rng {
    Rng::new(p)
}
