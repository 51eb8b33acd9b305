//! Random well-formed grammars, by profile.
use crate::ast::*;
use crate::rng::Rng;
use crate::wf::Wf;

#[derive(Clone, Debug)]
pub struct Profile {
    pub name: String,
    pub kinds: [u32; 4],
    pub rules: (usize, usize),
    pub depth: usize,
    // weights in untyped (unit / any) position
    pub lit: u32,
    pub pat: u32,
    pub call: u32,
    pub seq: u32,
    pub choice: u32,
    pub opt: u32,
    pub rep: u32,
    pub look: u32,
    pub neg: u32,
    pub slice: u32,
    pub position: u32,
    pub quiet: u32,
    pub expected: u32,
    pub custom: u32,
    pub prec: u32,
    pub act: u32,
    pub cond: u32,
    pub param_rules: u32,
    pub cache: u32,
    pub leftrec: u32,
    pub bound: u32,
    pub sep: u32,
    pub dyn_bound: u32,
    pub no_eof: u32,
    pub gargs: u32,
    pub multi: u32,
    pub tick: bool,
    pub hostile: bool,
    pub style: crate::print::Style,
    /// the first rule is this kind of rule
    pub focus: Focus,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Focus {
    None,
    Prec,
    LeftRec,
    Cache,
    Params,
}

impl Profile {
    pub fn base(name: &str) -> Profile {
        Profile {
            name: name.into(),
            kinds: [60, 15, 15, 10],
            rules: (3, 6),
            depth: 4,
            lit: 18,
            pat: 18,
            call: 22,
            seq: 18,
            choice: 16,
            opt: 8,
            rep: 10,
            look: 3,
            neg: 4,
            slice: 4,
            position: 2,
            quiet: 2,
            expected: 2,
            custom: 1,
            prec: 1,
            act: 30,
            cond: 10,
            param_rules: 10,
            cache: 8,
            leftrec: 4,
            bound: 35,
            sep: 30,
            dyn_bound: 10,
            no_eof: 15,
            gargs: 10,
            multi: 40,
            tick: false,
            hostile: false,
            style: Default::default(),
            focus: Focus::None,
        }
    }

    pub fn get(name: &str) -> Profile {
        let mut p = Profile::base(name);
        match name {
            "recog" => {
                p.look = 6;
                p.neg = 7;
                p.choice = 22;
                p.opt = 10;
            }
            "value" => {
                p.act = 60;
                p.slice = 8;
                p.position = 6;
                p.opt = 12;
                p.rep = 14;
                p.cond = 14;
            }
            "repeat" => {
                p.rep = 45;
                p.bound = 65;
                p.sep = 50;
                p.dyn_bound = 25;
                p.depth = 4;
            }
            "eof" => {
                p.no_eof = 50;
                p.rep = 16;
                p.opt = 12;
                p.kinds = [40, 20, 20, 20];
            }
            "errloc" => {
                p.cond = 16;
                p.neg = 7;
                p.choice = 24;
                p.kinds = [55, 10, 10, 25];
            }
            "errset" => {
                p.cond = 20;
                p.expected = 10;
                p.choice = 26;
                p.quiet = 5;
                p.no_eof = 5;
            }
            "suppress" => {
                p.quiet = 22;
                p.look = 18;
                p.neg = 18;
                p.expected = 12;
                p.cond = 12;
                p.cache = 0;
                p.leftrec = 3;
            }
            "prec" => {
                p.focus = Focus::Prec;
                p.prec = 20;
                p.rules = (2, 4);
                p.depth = 2;
                p.kinds = [70, 12, 12, 6];
            }
            "cache" => {
                p.focus = Focus::Cache;
                p.cache = 60;
                p.leftrec = 6;
                p.rules = (3, 7);
                p.call = 34;
                p.choice = 22;
                p.look = 6;
                p.neg = 5;
                p.param_rules = 5;
            }
            "cacheticks" => {
                p.focus = Focus::Cache;
                p.cache = 70;
                p.leftrec = 0;
                p.rules = (3, 7);
                p.call = 38;
                p.choice = 22;
                p.kinds = [0, 0, 0, 100];
                p.tick = true;
                p.param_rules = 0;
            }
            "leftrec" => {
                p.focus = Focus::LeftRec;
                p.leftrec = 55;
                p.cache = 8;
                p.rules = (2, 5);
            }
            "params" => {
                p.focus = Focus::Params;
                p.param_rules = 55;
                p.call = 40;
                p.gargs = 45;
                p.dyn_bound = 30;
                p.rules = (4, 7);
                p.depth = 3;
                p.prec = 3;
            }
            "syntax" => {
                p.style = crate::print::Style { parens: 18, ws: 2, semi: 40, commas: 40 };
            }
            "compact" => {
                p.style = crate::print::Style { parens: 0, ws: 0, semi: 0, commas: 0 };
                p.slice = 10;
                p.look = 6;
                p.neg = 6;
                p.opt = 12;
                p.rep = 14;
                p.prec = 6;
                p.depth = 5;
            }
            "inputs" => {
                p.kinds = [25, 25, 20, 30];
                p.multi = 70;
            }
            "unicode" => {
                p.kinds = [100, 0, 0, 0];
                p.multi = 100;
                p.slice = 12;
                p.position = 8;
                p.neg = 8;
            }
            "hygiene" => {
                p.hostile = true;
                p.act = 60;
                p.param_rules = 30;
                p.prec = 6;
                p.gargs = 40;
                p.cache = 15;
                p.leftrec = 12;
                p.slice = 8;
                p.rep = 14;
            }
            "isolate" => {
                p.cache = 40;
                p.leftrec = 25;
                p.quiet = 6;
                p.act = 55;
                p.kinds = [55, 12, 13, 20];
            }
            "trace" => {
                p.cache = 18;
                p.leftrec = 12;
                p.prec = 4;
                p.kinds = [70, 10, 10, 10];
                p.call = 34;
            }
            "general" | "raw" => {}
            _ => panic!("unknown profile {}", name),
        }
        p
    }
}

const POOL: [u32; 10] = ['a' as u32, 'b' as u32, 'c' as u32, 'd' as u32, 'x' as u32, '0' as u32, '1' as u32, '+' as u32, ',' as u32, '(' as u32];
const MULTI: [u32; 10] = [0xe9, 0x20ac, 0x1f600, 0xa, 0xd, 0x301, 0xe8, 0x22, 0xfffd, 0x7f];

const HOSTILE: [&str; 36] = [
    "__pos", "__input", "__state", "__err_state", "pos", "input", "state", "res", "str_start", "__value",
    "__newpos", "__repeat_value", "__repeat_pos", "__choice_res", "__seq_res", "__ch", "__next", "__val",
    "__infix_result", "__lpos", "__min_prec", "__recurse", "expected", "e", "loc", "entry", "min_prec", "lpos",
    "err_state", "infix_result", "__rule_result", "__last_result", "__current_result", "__peg_result", "__step_res",
    "__assert_res",
];

/// Names that the expansion of a grammar mentions, found by expanding one.
static HARVEST: std::sync::Mutex<Vec<String>> = std::sync::Mutex::new(Vec::new());

pub fn set_names(names: &str) {
    *HARVEST.lock().unwrap() = names.split(',').filter(|n| !n.is_empty()).map(String::from).collect();
}

pub fn names() -> Vec<String> {
    HARVEST.lock().unwrap().clone()
}

fn hostile_name(rng: &mut Rng) -> String {
    let h = HARVEST.lock().unwrap();
    let lower: Vec<&String> = h.iter().filter(|n| n.starts_with(|c: char| c == '_' || c.is_ascii_lowercase())).collect();
    if !lower.is_empty() && rng.pct(60) {
        return (*rng.pick(&lower)).clone();
    }
    rng.pick(&HOSTILE).to_string()
}

struct Var {
    name: String,
    ty: VTy,
    /// moved values may only be passed on by the sequence that bound them
    own: u32,
}
#[derive(Clone, PartialEq)]
enum VTy {
    T(Ty),
    Us,
    Str,
    Rule(Ty),
    El,
}

struct Ctx {
    vars: Vec<Var>,
    seq: u32,
}

pub struct Gen<'p> {
    pub p: &'p Profile,
    pub rng: Rng,
    kind: Kind,
    alpha: Vec<u32>,
    rules: Vec<Rule>,
    /// nullability of finished rules (index > current)
    nullable: Vec<bool>,
    nrules: usize,
    next_id: u32,
    next_name: u32,
    seqs: u32,
    budget: i32,
    gargs: Vec<(String, usize)>,
    called: Vec<bool>,
}

fn opt(t: Ty) -> Ty {
    Ty::Opt(Box::new(t))
}
fn vect(t: Ty) -> Ty {
    Ty::Vec(Box::new(t))
}

/// Generate grammar number `idx` of a batch; retried until well-formed.
pub fn grammar(p: &Profile, seed: u64, batch: u64, idx: u64) -> Grammar {
    if p.name == "raw" {
        return crate::raw::terminating(seed, batch, idx);
    }
    let mut best: Option<(usize, Grammar)> = None;
    let mut tried = 0;
    for attempt in 0.. {
        let rng = Rng::new(&[crate::rng::hash_str(&p.name), seed, batch, idx, attempt]);
        let g = Gen::make(p, rng, idx);
        if Wf::new(&g).terminating() {
            // of a few candidates keep the one whose exported rules accept most
            let s = richness(&g);
            if best.as_ref().map_or(true, |b| s > b.0) {
                best = Some((s, g));
            }
            tried += 1;
            if tried == 5 || best.as_ref().unwrap().0 >= 30 {
                break;
            }
        }
        assert!(attempt < 1000);
    }
    best.unwrap().1
}

/// Rules nothing exported reaches are exported themselves when they can be.
fn publish_unreachable(g: &mut Grammar) {
    fn walk(e: &E, todo: &mut Vec<usize>) {
        if let E::Rule(j, _) = e {
            todo.push(*j);
        }
        e.children(&mut |c| walk(c, todo));
    }
    for i in 0..g.rules.len() {
        let mut seen = vec![false; g.rules.len()];
        let mut todo: Vec<usize> = (0..g.rules.len()).filter(|j| g.rules[*j].public).collect();
        while let Some(j) = todo.pop() {
            if !seen[j] {
                seen[j] = true;
                walk(&g.rules[j].expr, &mut todo);
            }
        }
        let r = &mut g.rules[i];
        if !seen[i] && r.params.is_empty() && !r.name.starts_with('_') {
            r.public = true;
            r.calls.push(vec![]);
        }
    }
}

fn richness(g: &Grammar) -> usize {
    let mut total = 0;
    let mut n = 0;
    for (i, r) in g.rules.iter().enumerate() {
        if let (true, Some(args)) = (r.public, r.calls.first()) {
            let mut values = std::collections::HashSet::new();
            for codes in crate::input::samples(g, i, args, 24) {
                let inp = crate::model::MIn::new(g.kind, &codes, 0, 1);
                let srcs = crate::print::Srcs;
                let mut m = crate::model::Model::new(g, &inp, &srcs, crate::model::Mode::Transparent, 2000);
                if let Ok(crate::model::MOut::Ok(v, _)) = m.run(i, args) {
                    values.insert((codes.clone(), v.hash64()));
                }
            }
            total += values.len() * if i == 0 { 2 } else { 1 };
            n += if i == 0 { 2 } else { 1 };
        }
    }
    // per exported rule, out of 24
    total * 4 / (n.max(1))
}

impl<'p> Gen<'p> {
    fn make(p: &'p Profile, mut rng: Rng, idx: u64) -> Grammar {
        let kind = [Kind::Str, Kind::Bytes, Kind::Toks, Kind::Mon][rng.weighted(&p.kinds)];
        let k = rng.range(2, 4);
        let mut alpha: Vec<u32> = vec![];
        while alpha.len() < k {
            let c = match kind {
                Kind::Toks => rng.below(9) as u32,
                Kind::Bytes => {
                    if rng.pct(p.multi / 2) {
                        *rng.pick(&[0u32, 0xff, 0x80, 0xc3, 0xa9, 10])
                    } else {
                        *rng.pick(&POOL)
                    }
                }
                _ => {
                    if rng.pct(p.multi) {
                        *rng.pick(&MULTI)
                    } else {
                        *rng.pick(&POOL)
                    }
                }
            };
            if !alpha.contains(&c) {
                alpha.push(c);
            }
        }
        let nrules = rng.range(p.rules.0, p.rules.1);
        let mut g = Gen {
            p,
            rng,
            kind,
            alpha,
            rules: vec![],
            nullable: vec![true; nrules],
            nrules,
            next_id: 1 + idx as u32 * 1000,
            next_name: 0,
            seqs: 0,
            budget: 0,
            gargs: vec![],
            called: vec![false; nrules],
        };
        if g.rng.pct(p.gargs) {
            let n = g.fresh();
            let v = g.rng.range(0, 3);
            g.gargs.push((n, v));
            if g.rng.pct(30) {
                let n = g.fresh();
                let v = g.rng.range(0, 2);
                g.gargs.push((n, v));
            }
        }
        g.signatures();
        for i in (0..nrules).rev() {
            g.body(i);
            let gr = g.snapshot();
            // nullability as known so far: earlier rules count as nullable
            let mut w = Wf { g: &gr, nullable: g.nullable.clone(), unk: true };
            let n = w.null(&gr.rules[i].expr);
            w.nullable[i] = n;
            g.nullable[i] = n;
        }
        let mut gr = g.snapshot();
        gr.name = format!("g{}", idx);
        publish_unreachable(&mut gr);
        gr
    }

    fn snapshot(&self) -> Grammar {
        Grammar {
            kind: self.kind,
            name: "g".into(),
            alphabet: self.alpha.clone(),
            rules: self.rules.clone(),
            gargs: self.gargs.clone(),
        }
    }

    fn fresh(&mut self) -> String {
        self.next_name += 1;
        if self.p.hostile && self.rng.pct(75) {
            let mut n = hostile_name(&mut self.rng);
            // a local that shadows a grammar argument hides it from the calls
            // below it (known finding C21/grammar-argument-shadowed)
            while self.gargs.iter().any(|(m, _)| *m == n) {
                n = hostile_name(&mut self.rng);
            }
            // labels may shadow; keep them distinct so that the model and the
            // borrow checker agree on who owns what
            return if self.rng.pct(50) { format!("{}", n) } else { format!("{}_{}", n, self.next_name) };
        }
        format!("v{}", self.next_name)
    }

    fn rand_ty(&mut self, depth: usize) -> Ty {
        match self.rng.weighted(&[18, 14, 14, 8, 30, 12, 14]) {
            0 => Ty::Unit,
            1 => Ty::El,
            2 => Ty::Sl,
            3 => Ty::Us,
            4 => Ty::Val,
            5 if depth > 0 => opt(self.rand_ty(depth - 1)),
            6 if depth > 0 => vect(self.rand_ty(depth - 1)),
            _ => Ty::Val,
        }
    }

    fn signatures(&mut self) {
        let p = self.p;
        for i in 0..self.nrules {
            let focus_param = p.focus == Focus::Params && i + 1 == self.nrules;
            let mut params = vec![];
            if i > 0 && (focus_param || self.rng.pct(p.param_rules)) {
                let k = self.rng.range(1, 3);
                for _ in 0..k {
                    let mut n = self.fresh();
                    while params.iter().any(|(m, _): &(String, PTy)| *m == n)
                        || self.gargs.iter().any(|(m, _)| *m == n)
                    {
                        n = self.fresh();
                    }
                    let t = match self.rng.weighted(&[55, 20, 12, 13]) {
                        0 => PTy::Rule(self.rand_ty(1)),
                        1 => PTy::Us,
                        2 if self.kind != Kind::Toks => PTy::Str,
                        _ => PTy::El,
                    };
                    // a parameter hides the rule of the same name, the rule itself included
                    let hide = format!("r{}", self.rng.range(0, self.nrules));
                    if matches!(t, PTy::Rule(_)) && self.rng.pct(25) && params.iter().all(|(m, _)| *m != hide) {
                        n = hide;
                    }
                    params.push((n, t));
                }
            }
            let cache = if !params.is_empty() {
                Cache::No
            } else if (p.focus == Focus::LeftRec && i == 0) || self.rng.pct(p.leftrec) {
                Cache::LeftRec
            } else if (p.focus == Focus::Cache && i == 1) || self.rng.pct(p.cache) {
                Cache::Simple
            } else {
                Cache::No
            };
            let ret = if i == 0 {
                if self.rng.pct(80) {
                    Some(self.rand_ty(2))
                } else {
                    None
                }
            } else if self.rng.pct(75) {
                Some(self.rand_ty(2))
            } else {
                None
            };
            let ret = if cache == Cache::LeftRec && self.rng.pct(85) { Some(Ty::Val) } else { ret };
            let ret = if i == 0 && p.focus == Focus::Prec { Some(Ty::Val) } else { ret };
            // exported rules may only take Rust-typed parameters, and only
            // rules nobody has to call from left position are worth calling
            let rust_only = params.iter().all(|(_, t)| !matches!(t, PTy::Rule(_)));
            let public = i == 0 || (rust_only && self.rng.pct(35));
            let mut calls = vec![];
            if public && !params.is_empty() {
                for _ in 0..2 {
                    calls.push(
                        params
                            .iter()
                            .map(|(_, t)| match t {
                                PTy::Us => Arg::Us(N::Lit(self.rng.below(4))),
                                PTy::Str => Arg::Str(self.lit()),
                                _ => Arg::El(*self.rng.clone().pick(&self.alpha)),
                            })
                            .collect(),
                    );
                }
            } else if public {
                calls.push(vec![]);
            }
            let no_eof = public && self.rng.pct(p.no_eof);
            let name = if i > 0 && params.is_empty() && self.rng.pct(6) {
                let n = "_".repeat(self.rng.range(1, 3));
                if self.rules.iter().any(|r| r.name == n) || public || ret.is_some() {
                    format!("r{}", i)
                } else {
                    n
                }
            } else if p.hostile && self.rng.pct(60) {
                let n = hostile_name(&mut self.rng);
                if self.rules.iter().any(|r| r.name == n) || self.rng.pct(30) {
                    format!("r#{}{}", ["break", "fn", "let", "match", "loop"][i % 5], "")
                } else {
                    n
                }
            } else {
                format!("r{}", i)
            };
            let name = if self.rules.iter().any(|r| r.name == name) { format!("r{}", i) } else { name };
            self.rules.push(Rule {
                name,
                ret,
                params,
                expr: E::Seq(vec![], Act::None),
                cache,
                public,
                no_eof,
                calls,
            });
        }
        if p.hostile {
            // a Rust value named like a rule is a different story (see DESIGN)
            let names: Vec<String> = self.rules.iter().map(|r| r.name.clone()).collect();
            for r in &mut self.rules {
                let mut k = 0;
                for (n, t) in &mut r.params {
                    if names.contains(n) && !matches!(t, PTy::Rule(_)) {
                        k += 1;
                        n.push_str(&format!("_p{}", k));
                    }
                }
            }
            for (n, _) in &mut self.gargs {
                if names.contains(n) {
                    n.push_str("_ga");
                }
            }
        }
    }

    fn body(&mut self, i: usize) {
        self.budget = 14 + self.rng.below(16) as i32;
        let mut ctx = Ctx { vars: vec![], seq: 0 };
        for (n, _) in &self.gargs {
            ctx.vars.push(Var { name: n.clone(), ty: VTy::Us, own: u32::MAX });
        }
        for (n, t) in &self.rules[i].params {
            let ty = match t {
                PTy::Rule(t) => VTy::Rule(t.clone()),
                PTy::Us => VTy::Us,
                PTy::Str => VTy::Str,
                PTy::El => VTy::El,
            };
            ctx.vars.push(Var { name: n.clone(), ty, own: u32::MAX });
        }
        let ret = self.rules[i].ret.clone();
        let used = ret.is_some();
        let ty = ret.unwrap_or(Ty::Unit);
        let d = self.p.depth;
        let mut e = if self.rules[i].cache == Cache::LeftRec {
            self.leftrec_body(&mut ctx, i, &ty, used)
        } else if i == 0 && self.p.focus == Focus::Prec {
            self.prec(&mut ctx, i, d, true)
        } else {
            self.gen(&mut ctx, i, &ty, used, d, true, false)
        };
        if self.p.tick && self.rules[i].cache == Cache::Simple {
            // announce every evaluation of a memoized body
            let l = self.fresh();
            let id = 5000 + i as u32;
            e = if used {
                E::Seq(
                    vec![E::un(E::Tick(id)), Item { label: Some(l.clone()), e }],
                    Act::Pass(l),
                )
            } else {
                E::Seq(vec![E::un(E::Tick(id)), E::un(e)], Act::None)
            };
        }
        self.rules[i].expr = e;
    }

    fn leftrec_body(&mut self, ctx: &mut Ctx, i: usize, ty: &Ty, used: bool) -> E {
        let k = self.rng.range(1, 3);
        let mut alts = vec![];
        for _ in 0..k {
            let l = self.fresh();
            let me_used = used && self.rules[i].ret.is_some();
            let mut items = vec![];
            let base = ctx.vars.len();
            self.seqs += 1;
            let my = self.seqs;
            let old = std::mem::replace(&mut ctx.seq, my);
            if self.rng.pct(15) {
                items.push(E::un(E::Position));
            } else if self.rng.pct(8) {
                let e = self.atom();
                items.push(E::un(E::Neg(Box::new(e))));
            }
            items.push(Item {
                label: if me_used { Some(l.clone()) } else { None },
                e: E::Rule(i, vec![]),
            });
            if me_used {
                let t = self.rules[i].ret.clone().unwrap();
                ctx.vars.push(Var { name: l, ty: VTy::T(t), own: my });
            }
            let n = self.rng.range(1, 2);
            for j in 0..n {
                let t = self.rand_ty(1);
                let lab = if self.rng.pct(60) { Some(self.fresh()) } else { None };
                let d = self.p.depth.saturating_sub(2);
                let e = self.gen(ctx, i, &t, lab.is_some(), d, false, j == 0);
                if let Some(l) = &lab {
                    ctx.vars.push(Var { name: l.clone(), ty: VTy::T(t), own: my });
                }
                items.push(Item { label: lab, e });
            }
            if self.rng.pct(25) && me_used {
                // e = e op e
                let l = self.fresh();
                let t = self.rules[i].ret.clone().unwrap();
                items.push(Item { label: Some(l.clone()), e: E::Rule(i, vec![]) });
                ctx.vars.push(Var { name: l, ty: VTy::T(t), own: my });
            }
            let act = self.act_of(ctx, ty, my, &items);
            ctx.seq = old;
            match act {
                Some(a) => alts.push(E::Seq(items, a)),
                None => {}
            }
            ctx.vars.truncate(base);
        }
        let nb = self.rng.range(1, 2);
        for _ in 0..nb {
            let d = self.p.depth.saturating_sub(1);
            let e = self.gen(ctx, i, ty, used, d, true, self.rng.clone().pct(85));
            alts.push(e);
        }
        if alts.len() == 1 {
            return alts.pop().unwrap();
        }
        if self.rng.pct(10) {
            let n = alts.len();
            alts.swap(0, n - 1);
        }
        E::Choice(alts)
    }

    /// an action turning the items' bindings into a value of type `ty`
    fn act_of(&mut self, ctx: &Ctx, ty: &Ty, my: u32, _items: &[Item]) -> Option<Act> {
        let own: Vec<&Var> = self.visible(ctx).into_iter().filter(|v| v.own == my).collect();
        let same: Vec<String> =
            own.iter().filter(|v| v.ty == VTy::T(ty.clone())).map(|v| v.name.clone()).collect();
        match ty {
            Ty::Val => {
                let vars = self.some_vars(ctx, my);
                if !same.is_empty() && self.rng.pct(15) {
                    return Some(Act::Pass(self.rng.pick(&same).clone()));
                }
                self.next_id += 1;
                let id = self.next_id;
                if self.rng.pct(self.p.cond) {
                    Some(Act::CondMk(id, vars))
                } else {
                    Some(Act::Mk(id, vars))
                }
            }
            Ty::Unit => {
                if self.rng.pct(self.p.cond) {
                    self.next_id += 1;
                    let id = self.next_id;
                    let vars = self.some_vars(ctx, my);
                    Some(Act::CondUnit(id, vars))
                } else if self.rng.pct(30) {
                    Some(Act::Unit)
                } else {
                    None
                }
            }
            Ty::Us => {
                let lens: Vec<String> = own
                    .iter()
                    .filter(|v| matches!(v.ty, VTy::T(Ty::Vec(_))))
                    .map(|v| v.name.clone())
                    .collect();
                if !lens.is_empty() && (same.is_empty() || self.rng.pct(50)) {
                    return Some(Act::Len(self.rng.pick(&lens).clone()));
                }
                if same.is_empty() {
                    None
                } else {
                    Some(Act::Pass(self.rng.pick(&same).clone()))
                }
            }
            _ => {
                if same.is_empty() {
                    None
                } else {
                    Some(Act::Pass(self.rng.pick(&same).clone()))
                }
            }
        }
    }

    /// variables not shadowed by later ones
    fn visible<'c>(&self, ctx: &'c Ctx) -> Vec<&'c Var> {
        let mut out: Vec<&Var> = vec![];
        for v in ctx.vars.iter().rev() {
            if !out.iter().any(|o| o.name == v.name) {
                out.push(v);
            }
        }
        out.reverse();
        out
    }

    fn some_vars(&mut self, ctx: &Ctx, my: u32) -> Vec<String> {
        let vis: Vec<(String, bool)> = self
            .visible(ctx)
            .iter()
            .filter(|v| !matches!(v.ty, VTy::Rule(_) | VTy::Str))
            .map(|v| (v.name.clone(), v.own == my))
            .collect();
        let mut out = vec![];
        for (n, mine) in vis {
            if (mine && self.rng.pct(92)) || (!mine && self.rng.pct(25)) {
                out.push(n);
            }
        }
        out
    }

    fn lit(&mut self) -> String {
        let n = self.rng.weighted(&[0, 55, 30, 15]);
        let mut s = String::new();
        let pool: Vec<u32> = if self.kind == Kind::Bytes {
            self.alpha.iter().copied().filter(|c| *c < 128).collect()
        } else {
            self.alpha.clone()
        };
        if pool.is_empty() {
            return "é".to_string();
        }
        for _ in 0..n {
            s.push(char::from_u32(*self.rng.pick(&pool)).unwrap());
        }
        s
    }

    fn pat(&mut self, ctx: Option<&Ctx>, allow_cap: bool) -> Pat {
        let mut p = Pat { neg: false, any: false, ranges: vec![], cap: None, guard: None };
        match self.rng.weighted(&[60, 10, 14, 6, 5, 5]) {
            1 => p.any = true,
            2 => {
                p.neg = true;
                self.ranges(&mut p);
            }
            3 => {
                p.any = self.rng.pct(50);
                if !p.any {
                    self.ranges(&mut p);
                }
                let c = self.fresh();
                self.next_id += 1;
                p.guard = Some(Guard::Hash(self.next_id, c));
            }
            4 if allow_cap => {
                p.any = self.rng.pct(50);
                if !p.any {
                    self.ranges(&mut p);
                }
                p.cap = Some(self.fresh());
            }
            5 => {
                let els: Vec<String> = ctx.map_or(vec![], |c| {
                    self.visible(c)
                        .iter()
                        .filter(|v| v.ty == VTy::El || v.ty == VTy::T(Ty::El))
                        .map(|v| v.name.clone())
                        .collect()
                });
                if els.is_empty() {
                    self.ranges(&mut p);
                } else {
                    p.any = true;
                    let v = self.rng.pick(&els).clone();
                    let mut c = self.fresh();
                    while c == v {
                        c = self.fresh();
                    }
                    p.guard = Some(Guard::Eq(c, v));
                }
            }
            _ => self.ranges(&mut p),
        }
        p
    }

    fn ranges(&mut self, p: &mut Pat) {
        let n = self.rng.weighted(&[0, 60, 30, 10]);
        for _ in 0..n {
            let a = *self.rng.clone().pick(&self.alpha);
            self.rng.next();
            if self.rng.pct(25) {
                let b = *self.rng.clone().pick(&self.alpha);
                self.rng.next();
                let (lo, hi) = (a.min(b), a.max(b));
                p.ranges.push((lo, hi));
            } else {
                p.ranges.push((a, a));
            }
        }
    }

    /// a consuming terminal
    fn atom(&mut self) -> E {
        if self.kind != Kind::Toks && self.rng.pct(45) {
            E::Lit(self.lit())
        } else {
            E::Pat(self.pat(None, false))
        }
    }

    fn callee_null(&self, i: usize, j: usize) -> bool {
        if j > i {
            self.nullable[j]
        } else {
            true
        }
    }

    /// a call to a rule satisfying `f`, or None
    fn call(
        &mut self,
        ctx: &mut Ctx,
        i: usize,
        depth: usize,
        left: bool,
        nn: bool,
        f: &dyn Fn(&Rule) -> bool,
    ) -> Option<E> {
        let cands: Vec<usize> = (0..self.nrules)
            .filter(|&j| {
                f(&self.rules[j])
                    && (!left || j > i)
                    && (!nn || !self.callee_null(i, j))
                    // rules with parameters only call forward: instantiation stays finite
                    && (self.rules[j].params.is_empty() || (j > i && depth > 0))
                    && self.rules[i].params.iter().all(|(n, _)| *n != self.rules[j].name)
            })
            .collect();
        if cands.is_empty() {
            return None;
        }
        // prefer rules with parameters a little when asked to
        let j = if self.p.focus == Focus::Params && self.rng.pct(60) {
            let c2: Vec<usize> = cands.iter().copied().filter(|j| !self.rules[*j].params.is_empty()).collect();
            if c2.is_empty() {
                *self.rng.pick(&cands)
            } else {
                *self.rng.pick(&c2)
            }
        } else {
            *self.rng.pick(&cands)
        };
        // rules nobody uses yet come first
        let j = if self.called[j] && self.rng.pct(70) {
            let c2: Vec<usize> = cands.iter().copied().filter(|j| !self.called[*j]).collect();
            if c2.is_empty() {
                j
            } else {
                *self.rng.pick(&c2)
            }
        } else {
            j
        };
        self.called[j] = true;
        let params = self.rules[j].params.clone();
        let mut args = vec![];
        for (_, t) in &params {
            args.push(match t {
                PTy::Rule(t) => {
                    let d = depth.saturating_sub(1);
                    // closures see the caller's variables but must not move them
                    let old = std::mem::replace(&mut ctx.seq, u32::MAX - 1);
                    let len = ctx.vars.len();
                    let e = self.gen(ctx, i, t, true, d, left, false);
                    ctx.vars.truncate(len);
                    ctx.seq = old;
                    Arg::Peg(e)
                }
                PTy::Us => {
                    let us: Vec<String> = self
                        .visible(ctx)
                        .iter()
                        .filter(|v| v.ty == VTy::Us || v.ty == VTy::T(Ty::Us))
                        .map(|v| v.name.clone())
                        .collect();
                    if !us.is_empty() && self.rng.pct(40) {
                        Arg::Us(N::Var(self.rng.pick(&us).clone()))
                    } else {
                        Arg::Us(N::Lit(self.rng.below(4)))
                    }
                }
                PTy::Str => {
                    let ss: Vec<String> = self
                        .visible(ctx)
                        .iter()
                        .filter(|v| v.ty == VTy::Str)
                        .map(|v| v.name.clone())
                        .collect();
                    if !ss.is_empty() && self.rng.pct(50) {
                        Arg::Pass(self.rng.pick(&ss).clone())
                    } else {
                        Arg::Str(self.lit())
                    }
                }
                PTy::El => {
                    let es: Vec<String> = self
                        .visible(ctx)
                        .iter()
                        .filter(|v| v.ty == VTy::El || v.ty == VTy::T(Ty::El))
                        .map(|v| v.name.clone())
                        .collect();
                    if !es.is_empty() && self.rng.pct(50) {
                        Arg::Pass(self.rng.pick(&es).clone())
                    } else {
                        Arg::El(*self.rng.clone().pick(&self.alpha))
                    }
                }
            });
        }
        Some(E::Rule(j, args))
    }

    fn param_call(&mut self, ctx: &Ctx, ty: Option<&Ty>, left: bool, nn: bool) -> Option<E> {
        if nn {
            return None;
        }
        let _ = left;
        let c: Vec<String> = self
            .visible(ctx)
            .iter()
            .filter(|v| match &v.ty {
                VTy::Rule(t) => ty.map_or(true, |x| x == t),
                _ => false,
            })
            .map(|v| v.name.clone())
            .collect();
        if c.is_empty() {
            None
        } else {
            Some(E::Param(self.rng.pick(&c).clone()))
        }
    }

    /// Expression of type `ty` as compiled in used / unused mode.
    /// `left`: nothing is known to have been consumed since the rule began.
    /// `nn`: must not match without consuming.
    fn gen(&mut self, ctx: &mut Ctx, i: usize, ty: &Ty, used: bool, depth: usize, left: bool, nn: bool) -> E {
        self.budget -= 1;
        let d = depth.saturating_sub(1);
        let small = depth == 0 || self.budget <= 0;
        // generic wrappers available at every type
        if !small {
            let w = [
                self.p.choice,
                self.p.look / 2 * (!nn as u32),
                self.p.quiet,
                self.p.call,
                if self.has_params(ctx) { 40 } else { 0 },
                self.p.expected,
                70,
            ];
            match self.rng.weighted(&w) {
                0 => {
                    let n = self.rng.range(2, 3);
                    let v = (0..n).map(|_| self.gen(ctx, i, ty, used, d, left, nn)).collect();
                    return E::Choice(v);
                }
                1 => return E::Pos(Box::new(self.gen(ctx, i, ty, used, d, left, false))),
                2 => return E::Quiet(Box::new(self.gen(ctx, i, ty, used, d, left, nn))),
                3 => {
                    let t = ty.clone();
                    // an unused call has type ()
                    let f: Box<dyn Fn(&Rule) -> bool> = if used {
                        Box::new(move |r: &Rule| r.ret.as_ref() == Some(&t))
                    } else if *ty == Ty::Unit {
                        Box::new(|_: &Rule| true)
                    } else {
                        Box::new(|_: &Rule| false)
                    };
                    if let Some(e) = self.call(ctx, i, depth, left, nn, &*f) {
                        return e;
                    }
                }
                4 => {
                    if let Some(e) = self.param_call(ctx, Some(ty), left, nn) {
                        return e;
                    }
                }
                5 => {
                    // `e / expected!("..")`, sometimes the other way round
                    let e = self.gen(ctx, i, ty, used, d, left, nn);
                    let m = ["thing", "letter or digit", "aa", "zz top", "a\"b"][self.rng.below(5)].to_string();
                    let quiet = self.rng.pct(50);
                    let e = if quiet { E::Quiet(Box::new(e)) } else { e };
                    return if self.rng.pct(85) {
                        E::Choice(vec![e, E::Expected(m)])
                    } else {
                        E::Choice(vec![E::Expected(m), e])
                    };
                }
                _ => {}
            }
        }
        match ty {
            Ty::Unit => self.gen_unit(ctx, i, used, depth, left, nn, small),
            Ty::El => {
                if used && (small || self.rng.pct(60)) {
                    if !small && self.p.custom > 0 && self.rng.pct(self.p.custom * 3) {
                        self.next_id += 1;
                        return E::Custom(Custom::One(self.next_id));
                    }
                    E::Pat(self.pat(Some(ctx), false))
                } else {
                    self.gen_pass(ctx, i, ty, d, left, nn)
                }
            }
            Ty::Sl => {
                if small || self.rng.pct(65) {
                    let inner = self.gen_any(ctx, i, d, left, nn);
                    E::Slice(Box::new(inner))
                } else {
                    self.gen_pass(ctx, i, ty, d, left, nn)
                }
            }
            Ty::Us => {
                if !nn && (small || self.rng.pct(50)) {
                    if self.p.custom > 0 && self.rng.pct(self.p.custom * 4) {
                        E::Custom(Custom::Here)
                    } else {
                        E::Position
                    }
                } else {
                    self.gen_pass(ctx, i, ty, d, left, nn)
                }
            }
            Ty::Val => {
                if !small && self.p.prec > 0 && self.rng.pct(self.p.prec * 2) {
                    return self.prec(ctx, i, d, left);
                }
                self.gen_seq(ctx, i, ty, d, left, nn, if small { 1 } else { 3 })
            }
            Ty::Opt(t) => {
                if used && !nn && (small || self.rng.pct(70)) {
                    E::Opt(Box::new(self.gen(ctx, i, t, true, d, left, false)))
                } else {
                    self.gen_pass(ctx, i, ty, d, left, nn)
                }
            }
            Ty::Vec(t) => {
                if used {
                    self.gen_rep(ctx, i, Some(t), d, left, nn)
                } else {
                    self.gen_pass(ctx, i, ty, d, left, nn)
                }
            }
        }
    }

    fn has_params(&self, ctx: &Ctx) -> bool {
        ctx.vars.iter().any(|v| matches!(v.ty, VTy::Rule(_)))
    }

    /// any expression whose value is not looked at
    fn gen_any(&mut self, ctx: &mut Ctx, i: usize, depth: usize, left: bool, nn: bool) -> E {
        let t = if self.rng.pct(60) { Ty::Unit } else { self.rand_ty(1) };
        let len = ctx.vars.len();
        let e = self.gen(ctx, i, &t, false, depth, left, nn);
        ctx.vars.truncate(len);
        e
    }

    fn gen_rep(&mut self, ctx: &mut Ctx, i: usize, t: Option<&Ty>, d: usize, left: bool, nn: bool) -> E {
        let p = self.p;
        let with_sep = self.rng.pct(p.sep);
        let bound = if self.rng.pct(p.bound) {
            self.bound(ctx, nn)
        } else if nn || self.rng.pct(40) {
            Bound::Plus
        } else {
            Bound::Star
        };
        let bound = if with_sep || !matches!(bound, Bound::Plus) { bound } else { Bound::Plus };
        let unbounded = matches!(bound, Bound::Star | Bound::Plus | Bound::Range(_, None));
        // either the element or the separator has to consume
        let inner_nn = nn || (unbounded && (!with_sep || self.rng.pct(80)));
        let len = ctx.vars.len();
        let old = std::mem::replace(&mut ctx.seq, u32::MAX - 1);
        let inner = match t {
            Some(t) => self.gen(ctx, i, t, true, d, left, inner_nn),
            None => {
                let t = if self.rng.pct(60) { Ty::Unit } else { self.rand_ty(1) };
                self.gen(ctx, i, &t, false, d, left, inner_nn)
            }
        };
        ctx.vars.truncate(len);
        let sep = if with_sep {
            let e = if self.rng.pct(60) {
                self.atom()
            } else {
                self.gen_any(ctx, i, d.min(1), left && !inner_nn, unbounded && !inner_nn)
            };
            Some(Box::new(e))
        } else {
            None
        };
        ctx.vars.truncate(len);
        ctx.seq = old;
        E::Rep(Box::new(inner), bound, sep)
    }

    fn num(&mut self, ctx: &Ctx, n: usize, nonzero: bool) -> N {
        if !nonzero && self.rng.pct(self.p.dyn_bound) {
            let vis = self.visible(ctx);
            let us: Vec<String> = vis
                .iter()
                .filter(|v| v.ty == VTy::Us || v.ty == VTy::T(Ty::Us))
                .map(|v| v.name.clone())
                .collect();
            let ls: Vec<String> = vis
                .iter()
                .filter(|v| matches!(v.ty, VTy::T(Ty::Vec(_))) || (v.ty == VTy::T(Ty::Sl) && self.kind != Kind::Mon))
                .map(|v| v.name.clone())
                .collect();
            if !us.is_empty() && self.rng.pct(60) {
                return N::Var(self.rng.pick(&us).clone());
            }
            if !ls.is_empty() {
                return N::Len(self.rng.pick(&ls).clone());
            }
        }
        if self.rng.pct(25) {
            N::Const(n)
        } else {
            N::Lit(n)
        }
    }

    fn bound(&mut self, ctx: &Ctx, nn: bool) -> Bound {
        let lo = if nn { self.rng.range(1, 2) } else { self.rng.weighted(&[20, 30, 30, 20]) };
        match self.rng.below(4) {
            0 => {
                let n = self.num(ctx, lo, nn);
                Bound::Exact(n)
            }
            1 => {
                let n = self.num(ctx, lo, nn);
                Bound::Range(Some(n), None)
            }
            2 if !nn => {
                let hi = self.rng.below(4);
                let n = self.num(ctx, hi, false);
                Bound::Range(None, Some(n))
            }
            _ => {
                let hi = lo + self.rng.below(3);
                // now and then an impossible or degenerate range
                let hi = if !nn && self.rng.pct(5) { lo.saturating_sub(1) } else { hi };
                let a = self.num(ctx, lo, nn);
                let b = self.num(ctx, hi, false);
                Bound::Range(Some(a), Some(b))
            }
        }
    }

    fn gen_unit(&mut self, ctx: &mut Ctx, i: usize, used: bool, depth: usize, left: bool, nn: bool, small: bool) -> E {
        let p = self.p;
        let d = depth.saturating_sub(1);
        if small {
            if used {
                if self.kind == Kind::Toks {
                    let a = self.atom();
                    return E::Seq(vec![E::un(a)], Act::Unit);
                }
                return E::Lit(self.lit());
            }
            return self.atom();
        }
        let w = [
            if self.kind == Kind::Toks { 0 } else { p.lit },
            if used { 0 } else { p.pat },
            p.seq,
            if used || nn { 0 } else { p.opt },
            if used { 0 } else { p.rep },
            if nn { 0 } else { p.neg },
            if nn || used { 0 } else { p.look },
            if self.kind == Kind::Toks { 0 } else { 2 },
            if nn { 0 } else { 1 },
            1,
        ];
        match self.rng.weighted(&w) {
            0 => {
                if !nn && self.rng.pct(3) {
                    E::Lit(String::new())
                } else {
                    E::Lit(self.lit())
                }
            }
            1 => E::Pat(self.pat(Some(ctx), false)),
            3 => E::Opt(Box::new(self.gen_any(ctx, i, d, left, false))),
            4 => self.gen_rep(ctx, i, None, d, left, nn),
            5 => E::Neg(Box::new(self.gen_any(ctx, i, d, left, false))),
            6 => E::Pos(Box::new(self.gen(ctx, i, &Ty::Unit, false, d, left, false))),
            7 => {
                let ss: Vec<String> = self
                    .visible(ctx)
                    .iter()
                    .filter(|v| v.ty == VTy::Str)
                    .map(|v| v.name.clone())
                    .collect();
                if ss.is_empty() {
                    E::Lit(self.lit())
                } else {
                    E::LitParam(self.rng.pick(&ss).clone())
                }
            }
            8 if p.custom > 0 => {
                if self.rng.pct(20) {
                    E::Custom(Custom::Fail)
                } else {
                    let id = self.next_id;
                    if self.kind == Kind::Mon {
                        E::Tick(id)
                    } else if self.kind == Kind::Toks {
                        E::Seq(vec![], Act::Unit)
                    } else {
                        E::Lit(self.lit_or_atom_text())
                    }
                }
            }
            _ => self.gen_seq(ctx, i, &Ty::Unit, d, left, nn, 3),
        }
    }

    fn lit_or_atom_text(&mut self) -> String {
        if self.kind == Kind::Toks {
            String::new()
        } else {
            self.lit()
        }
    }

    /// `( x:e .. { x })`
    fn gen_pass(&mut self, ctx: &mut Ctx, i: usize, ty: &Ty, d: usize, left: bool, nn: bool) -> E {
        let len = ctx.vars.len();
        self.seqs += 1;
        let my = self.seqs;
        let old = std::mem::replace(&mut ctx.seq, my);
        let mut items = vec![];
        let mut left = left;
        let mut need = nn;
        if self.rng.pct(40) || need {
            let a = self.atom();
            items.push(E::un(a));
            left = false;
            need = false;
        }
        let _ = need;
        let l = self.fresh();
        let e = match ty {
            // every type has a cheap producer in used mode
            Ty::El => E::Pat(self.pat(Some(ctx), false)),
            Ty::Sl => E::Slice(Box::new(self.atom())),
            Ty::Us => E::Position,
            Ty::Opt(t) => E::Opt(Box::new(self.gen(ctx, i, t, true, d, left, false))),
            Ty::Vec(t) => self.gen_rep(ctx, i, Some(t), d, left, false),
            _ => self.gen(ctx, i, ty, true, d, left, false),
        };
        ctx.vars.truncate(len);
        ctx.vars.push(Var { name: l.clone(), ty: VTy::T(ty.clone()), own: my });
        items.push(Item { label: Some(l.clone()), e });
        if self.rng.pct(40) {
            let a = self.atom();
            items.push(E::un(a));
        }
        ctx.vars.truncate(len);
        ctx.seq = old;
        E::Seq(items, Act::Pass(l))
    }

    fn gen_seq(&mut self, ctx: &mut Ctx, i: usize, ty: &Ty, d: usize, left: bool, nn: bool, max: usize) -> E {
        let len = ctx.vars.len();
        self.seqs += 1;
        let my = self.seqs;
        let old = std::mem::replace(&mut ctx.seq, my);
        let n = if nn { self.rng.range(1, max) } else { self.rng.range(if max > 1 { 0 } else { 1 }, max) };
        let consume_at = if nn { self.rng.below(n) } else { usize::MAX };
        let mut items = vec![];
        let mut left = left;
        for k in 0..n {
            let inn = k == consume_at || self.rng.pct(45);
            let label = if self.rng.pct(self.p.act) { Some(self.fresh()) } else { None };
            let t = if label.is_some() { self.rand_ty(1) } else { Ty::Unit };
            let base = ctx.vars.len();
            let e = if label.is_some() {
                self.gen(ctx, i, &t, true, d, left, inn)
            } else if self.rng.pct(12) {
                E::Pat(self.pat(Some(ctx), true))
            } else {
                self.gen_any(ctx, i, d, left, inn)
            };
            ctx.vars.truncate(base);
            let consumes = {
                let gr = Grammar { rules: vec![], ..self.snapshot_head() };
                let mut w = Wf { g: &gr, nullable: self.nullable.clone(), unk: true };
                for j in 0..=i {
                    w.nullable[j] = true;
                }
                !w.null(&e)
            };
            if consumes {
                left = false;
            }
            if let E::Pat(p) = &e {
                if let Some(l) = &label {
                    ctx.vars.push(Var { name: l.clone(), ty: VTy::T(Ty::El), own: my });
                }
                let cap = match &p.guard {
                    Some(Guard::Hash(_, c)) | Some(Guard::Eq(c, _)) => Some(c.clone()),
                    None => p.cap.clone(),
                };
                if let Some(c) = cap {
                    ctx.vars.push(Var { name: c, ty: VTy::T(Ty::El), own: my });
                }
            } else if let Some(l) = &label {
                ctx.vars.push(Var { name: l.clone(), ty: VTy::T(t.clone()), own: my });
            }
            items.push(Item { label, e });
        }
        let act = match self.act_of(ctx, ty, my, &items) {
            Some(a) => a,
            None => Act::None,
        };
        ctx.vars.truncate(len);
        ctx.seq = old;
        if items.len() == 1 && matches!(act, Act::None) {
            // `(x:e)` is just `e`; give it an explicit unit action instead
            return E::Seq(items, Act::Unit);
        }
        E::Seq(items, act)
    }

    fn snapshot_head(&self) -> Grammar {
        Grammar { kind: self.kind, name: String::new(), alphabet: vec![], rules: vec![], gargs: vec![] }
    }

    fn prec(&mut self, ctx: &mut Ctx, i: usize, d: usize, left: bool) -> E {
        let len = ctx.vars.len();
        let old = std::mem::replace(&mut ctx.seq, u32::MAX - 1);
        let nl = self.rng.range(1, 4);
        let mut levels: Vec<Vec<Op>> = vec![];
        let mut has_atom = false;
        for lv in 0..nl {
            let n = self.rng.range(1, 3);
            let mut ops = vec![];
            for k in 0..n {
                let last = lv + 1 == nl && k + 1 == n;
                let kind = if last && !has_atom {
                    OpKind::Atom
                } else {
                    match self.rng.weighted(&[55, 15, 15, 15]) {
                        0 => OpKind::Infix { left_assoc: self.rng.pct(60) },
                        1 => OpKind::Prefix { same: self.rng.pct(50) },
                        2 => OpKind::Postfix,
                        _ => OpKind::Atom,
                    }
                };
                let op = self.op(ctx, i, d, left, kind, &mut has_atom);
                ops.push(op);
            }
            levels.push(ops);
        }
        if self.rng.pct(50) {
            // a parenthesised or plain atom at the tightest level
            let op = self.op(ctx, i, d, left, OpKind::Atom, &mut has_atom);
            levels.push(vec![op]);
        }
        ctx.vars.truncate(len);
        ctx.seq = old;
        let span = if self.rng.pct(30) {
            self.next_id += 1;
            Some(self.next_id)
        } else {
            None
        };
        E::Prec(Prec { levels, span })
    }

    fn op(&mut self, ctx: &mut Ctx, i: usize, d: usize, left: bool, kind: OpKind, has_atom: &mut bool) -> Op {
        let len = ctx.vars.len();
        self.seqs += 1;
        let my = self.seqs;
        let old = std::mem::replace(&mut ctx.seq, my);
        let mut items = vec![];
        let after_operand = matches!(kind, OpKind::Infix { .. } | OpKind::Postfix);
        let mut l = left && !after_operand;
        if let OpKind::Atom = kind {
            *has_atom = true;
        }
        let n = self.rng.weighted(&[0, 70, 22, 8]);
        for k in 0..n {
            // the first or last element is a terminal so that operators differ
            let term = k == 0 || self.rng.pct(40);
            let label = if self.rng.pct(35) { Some(self.fresh()) } else { None };
            let t = if label.is_some() { self.rand_ty(1) } else { Ty::Unit };
            let base = ctx.vars.len();
            let e = if label.is_none() && term {
                self.atom()
            } else if label.is_some() {
                self.gen(ctx, i, &t, true, d.min(1), l, k == 0)
            } else {
                self.gen_any(ctx, i, d.min(1), l, k == 0)
            };
            ctx.vars.truncate(base);
            if k == 0 {
                l = false;
            }
            if let E::Pat(p) = &e {
                if let Some(l) = &label {
                    ctx.vars.push(Var { name: l.clone(), ty: VTy::T(Ty::El), own: my });
                }
                let cap = match &p.guard {
                    Some(Guard::Hash(_, c)) | Some(Guard::Eq(c, _)) => Some(c.clone()),
                    None => p.cap.clone(),
                };
                if let Some(c) = cap {
                    ctx.vars.push(Var { name: c, ty: VTy::T(Ty::El), own: my });
                }
            } else if let Some(l) = &label {
                ctx.vars.push(Var { name: l.clone(), ty: VTy::T(t.clone()), own: my });
            }
            items.push(Item { label, e });
        }
        let mut lab = None;
        let mut rab = None;
        // bound in the order the operands become available: right, then left
        if matches!(kind, OpKind::Infix { .. } | OpKind::Prefix { .. }) && self.rng.pct(92) {
            let n = self.fresh();
            ctx.vars.push(Var { name: n.clone(), ty: VTy::T(Ty::Val), own: my });
            rab = Some(n);
        }
        if after_operand && self.rng.pct(92) {
            let n = self.fresh();
            ctx.vars.push(Var { name: n.clone(), ty: VTy::T(Ty::Val), own: my });
            lab = Some(n);
        }
        let vars = self.some_vars(ctx, my);
        self.next_id += 1;
        let id = self.next_id;
        ctx.vars.truncate(len);
        ctx.seq = old;
        Op { kind, l: lab, r: rab, items, id, vars, paren_marker: self.rng.pct(50) }
    }
}
