//! The reference: a direct interpreter of abstract grammars written from the
//! documented meaning of each expression, plus the documented rules for what
//! is recorded about failures. It shares no code with rust-peg.
use crate::ast::*;
use crate::print;
use crate::val::{cond_ok, gd_code, Val};
use std::collections::{BTreeSet, HashMap};
use std::rc::Rc;

/// An input as the model sees it.
#[derive(Clone, Debug)]
pub struct MIn {
    pub kind: Kind,
    pub codes: Vec<u32>,
    /// position of each element, and the end position
    pub pos: Vec<usize>,
    pub index: HashMap<usize, usize>,
    pub base: usize,
    pub stride: usize,
}

/// Distance from element `i` to the next one, on a custom input: `stride`, or anything.
fn gap(stride: usize, i: usize) -> usize {
    match stride {
        0 => [1, 1 << 32, 2, 256, 65536, 3 << 32, 7, (1 << 32) - 1, 1 << 16, 5][(i * 7 + i / 10) % 10],
        n => n,
    }
}

impl MIn {
    /// `base`/`stride` only matter for Kind::Mon; a stride of 0 is irregular, a base too large for the input moves it down to end at usize::MAX.
    pub fn new(kind: Kind, codes: &[u32], base: usize, stride: usize) -> MIn {
        let mut pos = vec![];
        let span: usize = (0..codes.len()).map(|i| gap(stride, i)).sum();
        let mut p = match kind {
            // such that the last position is the last number there is
            Kind::Mon if base.checked_add(span).is_none() => usize::MAX - span,
            Kind::Mon => base,
            _ => 0,
        };
        for (i, c) in codes.iter().enumerate() {
            pos.push(p);
            p += match kind {
                Kind::Str => char::from_u32(*c).unwrap().len_utf8(),
                Kind::Mon => gap(stride, i),
                _ => 1,
            };
        }
        pos.push(p);
        let index = pos.iter().enumerate().map(|(i, p)| (*p, i)).collect();
        MIn { kind, codes: codes.to_vec(), pos, index, base, stride }
    }
    pub fn start(&self) -> usize {
        self.pos[0]
    }
    pub fn end(&self) -> usize {
        *self.pos.last().unwrap()
    }
    fn elem(&self, p: usize) -> Option<(u32, usize)> {
        let i = *self.index.get(&p).expect("model position");
        if i < self.codes.len() {
            Some((self.codes[i], self.pos[i + 1]))
        } else {
            None
        }
    }
    /// Literal text against elements: characters for str/custom, UTF-8 bytes for bytes.
    fn literal(&self, p: usize, lit: &str) -> Option<usize> {
        let i = *self.index.get(&p).expect("model position");
        let want: Vec<u32> = match self.kind {
            Kind::Bytes => lit.bytes().map(|b| b as u32).collect(),
            _ => lit.chars().map(|c| c as u32).collect(),
        };
        if i + want.len() <= self.codes.len() && self.codes[i..i + want.len()] == want[..] {
            Some(self.pos[i + want.len()])
        } else {
            None
        }
    }
    pub fn text(&self) -> String {
        match self.kind {
            Kind::Str | Kind::Mon => self.codes.iter().map(|c| char::from_u32(*c).unwrap()).collect(),
            _ => format!("{:?}", self.codes),
        }
    }
    pub fn line_col(&self, p: usize) -> (usize, usize) {
        let mut l = 1;
        let mut c = 1;
        for (i, code) in self.codes.iter().enumerate() {
            if self.pos[i] >= p {
                break;
            }
            if *code == '\n' as u32 {
                l += 1;
                c = 1;
            } else {
                c += 1;
            }
        }
        (l, c)
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum MOut {
    Ok(Val, usize),
    Err { pos: usize, exp: BTreeSet<String> },
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Tr {
    Try,
    Match(usize),
    Fail,
    CachedMatch,
    CachedFail,
    /// a precedence block starts and ends looking for operators
    Enter(usize),
    Leave(usize),
}

pub struct Limit;
type R = Result<Option<(usize, Val)>, Limit>;

#[derive(Clone)]
enum Bind<'g> {
    Val(Val),
    Us(usize),
    Str(String),
    Peg(&'g E, Env<'g>),
    /// rule parameter passed through
    Alias(Box<Bind<'g>>),
}

struct Node<'g> {
    name: &'g str,
    b: Bind<'g>,
    next: Env<'g>,
}
type Env<'g> = Option<Rc<Node<'g>>>;

fn look<'e, 'g>(env: &'e Env<'g>, name: &str) -> Option<&'e Bind<'g>> {
    let mut e = env;
    while let Some(n) = e {
        if n.name == name {
            let mut b = &n.b;
            while let Bind::Alias(x) = b {
                b = x;
            }
            return Some(b);
        }
        e = &n.next;
    }
    None
}
fn push<'g>(env: &Env<'g>, name: &'g str, b: Bind<'g>) -> Env<'g> {
    Some(Rc::new(Node { name, b, next: env.clone() }))
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode {
    /// `#[cache]` ignored: what the grammar means
    Transparent,
    /// `#[cache]` memoizes, so a cached failure is not reported a second time
    Memo,
}

pub struct Model<'g> {
    g: &'g Grammar,
    inp: &'g MIn,
    mode: Mode,
    cache: HashMap<(usize, usize), (Option<(usize, Val)>, bool)>,
    pub suppress: usize,
    max: usize,
    exp: BTreeSet<String>,
    pub steps: u64,
    limit: u64,
    depth: u32,
    genv: Env<'g>,
    srcs: &'g print::Srcs,
    pub trace: Option<Vec<(usize, Tr, usize)>>,
    /// a cache entry recorded inside lookahead/quiet was used outside of it
    pub lossy: bool,
    pub ticks: Vec<(u32, usize)>,
    pub feats: u64,
    pub cache_hits: u64,
    pub growths: u64,
    pub suppressed_marks: u64,
    pub marks: u64,
    pub deepest: u32,
}

pub const MAX_DEPTH: u32 = 600;
pub const MAX_VALUE: usize = 4000;

impl<'g> Model<'g> {
    pub fn new(g: &'g Grammar, inp: &'g MIn, srcs: &'g print::Srcs, mode: Mode, limit: u64) -> Model<'g> {
        let mut genv = None;
        for (n, v) in &g.gargs {
            genv = push(&genv, n, Bind::Us(*v));
        }
        Model {
            g,
            inp,
            mode,
            cache: HashMap::new(),
            suppress: 0,
            max: inp.start(),
            exp: BTreeSet::new(),
            steps: 0,
            limit,
            depth: 0,
            genv,
            srcs,
            trace: None,
            lossy: false,
            ticks: vec![],
            feats: 0,
            cache_hits: 0,
            growths: 0,
            suppressed_marks: 0,
            marks: 0,
            deepest: 0,
        }
    }

    /// Call exported rule `ri` with the given Rust arguments on the whole input.
    pub fn run(&mut self, ri: usize, args: &'g [Arg]) -> Result<MOut, Limit> {
        let genv = self.genv.clone();
        let r = self.call(ri, args, &genv, self.inp.start())?;
        if let Some((p, v)) = r {
            if self.g.rules[ri].no_eof || p >= self.inp.end() {
                return Ok(MOut::Ok(v, p));
            }
            self.mark(p, "EOF".to_string());
        }
        Ok(MOut::Err { pos: self.max, exp: self.exp.clone() })
    }

    fn mark(&mut self, p: usize, what: String) {
        if self.suppress > 0 {
            self.suppressed_marks += 1;
            return;
        }
        self.marks += 1;
        if p > self.max {
            self.max = p;
            self.exp.clear();
        }
        if p == self.max {
            self.exp.insert(what);
        }
    }

    fn num(&self, n: &N, env: &Env<'g>) -> usize {
        match n {
            N::Lit(n) | N::Const(n) => *n,
            N::Var(v) => match look(env, v) {
                Some(Bind::Us(n)) => *n,
                Some(Bind::Val(Val::N(n))) => *n as usize,
                _ => panic!("model: bound variable {}", v),
            },
            N::Len(v) => match look(env, v) {
                Some(Bind::Val(Val::L(x))) => x.len(),
                Some(Bind::Val(Val::S(_, l))) => *l,
                _ => panic!("model: bound len {}", v),
            },
        }
    }

    fn val(&self, v: &str, env: &Env<'g>) -> Val {
        match look(env, v) {
            Some(Bind::Val(x)) => x.clone(),
            Some(Bind::Us(n)) => Val::N(*n as u64),
            Some(Bind::Str(s)) => Val::X(s.clone()),
            _ => panic!("model: variable {}", v),
        }
    }

    /// values that share parts can grow exponentially: not this model's subject
    fn size_limit(&self, v: &Val) -> Result<(), Limit> {
        if v.size() > MAX_VALUE {
            Err(Limit)
        } else {
            Ok(())
        }
    }

    fn call(&mut self, ri: usize, args: &'g [Arg], env: &Env<'g>, p: usize) -> R {
        let g = self.g;
        let rule = &g.rules[ri];
        let mut renv = self.genv.clone();
        for (a, (name, _)) in args.iter().zip(&rule.params) {
            let b = match a {
                Arg::Peg(e) => Bind::Peg(e, env.clone()),
                Arg::Us(n) => Bind::Us(self.num(n, env)),
                Arg::Str(s) => Bind::Str(s.clone()),
                Arg::El(c) => Bind::Val(Val::E(*c)),
                Arg::Pass(n) => Bind::Alias(Box::new(look(env, n).expect("model: pass").clone())),
            };
            renv = push(&renv, name, b);
        }
        let key = (ri, p);
        let cached = match rule.cache {
            Cache::No => false,
            Cache::Simple => self.mode == Mode::Memo,
            Cache::LeftRec => true,
        };
        if cached {
            if let Some((r, sup)) = self.cache.get(&key) {
                if *sup && self.suppress == 0 {
                    self.lossy = true;
                }
                self.cache_hits += 1;
                let r = r.clone();
                if let Some(t) = &mut self.trace {
                    t.push((ri, if r.is_some() { Tr::CachedMatch } else { Tr::CachedFail }, p));
                }
                return Ok(r);
            }
        }
        let sup = self.suppress > 0;
        match rule.cache {
            Cache::LeftRec => {
                self.cache.insert(key, (None, sup));
                let mut last: Option<(usize, Val)> = None;
                loop {
                    match self.body(ri, &renv, p)? {
                        None => break,
                        Some((e, v)) => {
                            if let Some((le, _)) = &last {
                                if e <= *le {
                                    break;
                                }
                                self.growths += 1;
                            }
                            last = Some((e, v));
                            self.cache.insert(key, (last.clone(), sup));
                        }
                    }
                }
                Ok(last)
            }
            _ => {
                let r = self.body(ri, &renv, p)?;
                if cached {
                    self.cache.insert(key, (r.clone(), sup));
                }
                Ok(r)
            }
        }
    }

    fn body(&mut self, ri: usize, env: &Env<'g>, p: usize) -> R {
        let g = self.g;
        if let Some(t) = &mut self.trace {
            t.push((ri, Tr::Try, p));
        }
        let r = self.eval(&g.rules[ri].expr, env, p)?;
        if let Some(t) = &mut self.trace {
            t.push((ri, r.as_ref().map_or(Tr::Fail, |(e, _)| Tr::Match(*e)), p));
        }
        Ok(r.map(|(e, v)| (e, if g.rules[ri].ret.is_none() { Val::U } else { v })))
    }

    fn eval(&mut self, e: &'g E, env: &Env<'g>, p: usize) -> R {
        self.steps += 1;
        self.depth += 1;
        self.deepest = self.deepest.max(self.depth);
        if self.steps > self.limit || self.depth > MAX_DEPTH {
            return Err(Limit);
        }
        let r = self.eval2(e, env, p);
        self.depth -= 1;
        r
    }

    fn items(&mut self, items: &'g [Item], env: &Env<'g>, p: usize) -> Result<Option<(usize, Env<'g>)>, Limit> {
        let mut env = env.clone();
        let mut p = p;
        for it in items {
            match self.eval(&it.e, &env, p)? {
                None => return Ok(None),
                Some((np, v)) => {
                    if let E::Pat(pat) = &it.e {
                        // the label names the element, captures are bound inside the pattern
                        if let Some(l) = &it.label {
                            env = push(&env, l, Bind::Val(v.clone()));
                        }
                        let cap = match &pat.guard {
                            Some(Guard::Hash(_, c)) | Some(Guard::Eq(c, _)) => Some(c),
                            None => pat.cap.as_ref(),
                        };
                        if let Some(c) = cap {
                            env = push(&env, c, Bind::Val(v));
                        }
                    } else if let Some(l) = &it.label {
                        env = push(&env, l, Bind::Val(v));
                    }
                    p = np;
                }
            }
        }
        Ok(Some((p, env)))
    }

    fn eval2(&mut self, e: &'g E, env: &Env<'g>, p: usize) -> R {
        Ok(match e {
            E::Lit(s) => match self.inp.literal(p, s) {
                Some(n) => Some((n, Val::U)),
                None => {
                    self.mark(p, self.srcs.lit(s));
                    None
                }
            },
            E::Pat(pat) => {
                let hit = match self.inp.elem(p) {
                    Some((c, n)) => {
                        let in_set = (pat.any || pat.ranges.iter().any(|(a, b)| *a <= c && c <= *b))
                            && match &pat.guard {
                                None => true,
                                Some(Guard::Hash(id, _)) => gd_code(*id, c),
                                Some(Guard::Eq(_, v)) => self.val(v, env) == Val::E(c),
                            };
                        if in_set != pat.neg {
                            Some((n, Val::E(c)))
                        } else {
                            None
                        }
                    }
                    None => None,
                };
                if hit.is_none() {
                    let s = print::pat_src(pat, self.g.kind);
                    self.mark(p, s);
                }
                hit
            }
            E::Rule(ri, args) => return self.call(*ri, args, env, p),
            E::Param(n) => match look(env, n).cloned() {
                Some(Bind::Peg(e, cenv)) => return self.eval(e, &cenv, p),
                _ => panic!("model: rule parameter {}", n),
            },
            E::Seq(items, act) => match self.items(items, env, p)? {
                None => None,
                Some((np, env)) => match act {
                    Act::None | Act::Unit => Some((np, Val::U)),
                    Act::Pass(l) => Some((np, self.val(l, &env))),
                    Act::Len(l) => Some((np, Val::N(self.num(&N::Len(l.clone()), &env) as u64))),
                    Act::Mk(id, vs) => {
                        let v = Val::T(*id, vs.iter().map(|v| self.val(v, &env)).collect());
                        self.size_limit(&v)?;
                        Some((np, v))
                    }
                    Act::CondMk(id, vs) | Act::CondUnit(id, vs) => {
                        let vals: Vec<Val> = vs.iter().map(|v| self.val(v, &env)).collect();
                        match cond_ok(*id, &vals) {
                            Ok(()) => {
                                let v = if matches!(act, Act::CondMk(..)) { Val::T(*id, vals) } else { Val::U };
                                self.size_limit(&v)?;
                                Some((np, v))
                            }
                            Err(m) => {
                                self.mark(np, m.to_string());
                                None
                            }
                        }
                    }
                },
            },
            E::Choice(v) => {
                for x in v {
                    if let Some(r) = self.eval(x, env, p)? {
                        return Ok(Some(r));
                    }
                }
                None
            }
            E::Opt(x) => match self.eval(x, env, p)? {
                Some((n, v)) => Some((n, Val::O(Some(Box::new(v))))),
                None => Some((p, Val::O(None))),
            },
            E::Rep(x, b, sep) => {
                let (min, max) = match b {
                    Bound::Star => (0, None),
                    Bound::Plus => (1, None),
                    Bound::Exact(n) => {
                        let n = self.num(n, env);
                        (n, Some(n))
                    }
                    Bound::Range(a, b) => {
                        (a.as_ref().map_or(0, |n| self.num(n, env)), b.as_ref().map(|n| self.num(n, env)))
                    }
                };
                let mut out = vec![];
                let mut end = p;
                loop {
                    let mut q = end;
                    if let (Some(s), false) = (sep, out.is_empty()) {
                        match self.eval(s, env, q)? {
                            Some((n, _)) => q = n,
                            None => break,
                        }
                    }
                    if max.map_or(false, |m| out.len() >= m) {
                        break;
                    }
                    match self.eval(x, env, q)? {
                        Some((n, v)) => {
                            end = n;
                            out.push(v);
                        }
                        None => break,
                    }
                    self.steps += 1;
                    if self.steps > self.limit {
                        return Err(Limit);
                    }
                }
                if out.len() >= min {
                    Some((end, Val::L(out)))
                } else {
                    None
                }
            }
            E::Pos(x) => {
                self.suppress += 1;
                let r = self.eval(x, env, p)?;
                self.suppress -= 1;
                r.map(|(_, v)| (p, v))
            }
            E::Neg(x) => {
                self.suppress += 1;
                let r = self.eval(x, env, p)?;
                self.suppress -= 1;
                match r {
                    None => Some((p, Val::U)),
                    Some(_) => None,
                }
            }
            E::Slice(x) => self.eval(x, env, p)?.map(|(n, _)| (n, Val::S(p, n - p))),
            E::Position => Some((p, Val::N(p as u64))),
            E::Quiet(x) => {
                self.suppress += 1;
                let r = self.eval(x, env, p)?;
                self.suppress -= 1;
                r
            }
            E::Expected(s) => {
                self.mark(p, s.clone());
                None
            }
            E::Custom(Custom::One(id)) => match self.inp.elem(p) {
                Some((c, n)) if gd_code(*id, c) => Some((n, Val::E(c))),
                _ => None,
            },
            E::Custom(Custom::Here) => Some((p, Val::N(p as u64))),
            E::Custom(Custom::Fail) => None,
            E::LitParam(n) => {
                let s = match look(env, n) {
                    Some(Bind::Str(s)) => s.clone(),
                    _ => panic!("model: str param {}", n),
                };
                self.inp.literal(p, &s).map(|n| (n, Val::U))
            }
            E::Tick(id) => {
                self.ticks.push((*id, p));
                Some((p, Val::U))
            }
            E::Prec(pr) => return self.prec(pr, 0, p, env),
        })
    }

    /// Operator precedence parsing: `min` is the loosest level that may be
    /// consumed here; level numbers grow with binding strength.
    fn prec(&mut self, pr: &'g Prec, min: usize, lpos: usize, env: &Env<'g>) -> R {
        self.steps += 1;
        self.depth += 1;
        if self.steps > self.limit || self.depth > MAX_DEPTH {
            return Err(Limit);
        }
        let r = self.prec2(pr, min, lpos, env);
        self.depth -= 1;
        r
    }

    fn prec_act(&self, pr: &'g Prec, op: &'g Op, lpos: usize, end: usize, env: &Env<'g>) -> Result<Val, Limit> {
        let v = Val::T(op.id, op.vars.iter().map(|v| self.val(v, env)).collect());
        self.size_limit(&v)?;
        Ok(match pr.span {
            None => v,
            Some(id) => Val::T(id, vec![Val::N(lpos as u64), v, Val::N(end as u64)]),
        })
    }

    fn prec2(&mut self, pr: &'g Prec, min: usize, lpos: usize, env: &Env<'g>) -> R {
        // operand: first atom or prefix operator that matches, in source order
        let mut cur: Option<(usize, Val)> = None;
        'atoms: for (lv, ops) in pr.levels.iter().enumerate() {
            for op in ops {
                match op.kind {
                    OpKind::Atom => {
                        if let Some((n, env2)) = self.items(&op.items, env, lpos)? {
                            cur = Some((n, self.prec_act(pr, op, lpos, n, &env2)?));
                            break 'atoms;
                        }
                    }
                    OpKind::Prefix { same } => {
                        if let Some((n, env2)) = self.items(&op.items, env, lpos)? {
                            let m = if same { lv } else { lv + 1 };
                            if let Some((n2, v)) = self.prec(pr, m, n, env)? {
                                let env3 = match &op.r {
                                    Some(r) => push(&env2, r, Bind::Val(v)),
                                    None => env2,
                                };
                                cur = Some((n2, self.prec_act(pr, op, lpos, n2, &env3)?));
                                break 'atoms;
                            }
                        }
                    }
                    _ => {}
                }
            }
        }
        let (mut end, mut val) = match cur {
            None => return Ok(None),
            Some(x) => x,
        };
        if let Some(t) = &mut self.trace {
            t.push((0, Tr::Enter(min), 0));
        }
        'grow: loop {
            self.steps += 1;
            if self.steps > self.limit {
                return Err(Limit);
            }
            for (lv, ops) in pr.levels.iter().enumerate() {
                if lv < min {
                    continue;
                }
                for op in ops {
                    match op.kind {
                        OpKind::Infix { left_assoc } => {
                            if let Some((n, env2)) = self.items(&op.items, env, end)? {
                                let m = if left_assoc { lv + 1 } else { lv };
                                if let Some((n2, rv)) = self.prec(pr, m, n, env)? {
                                    // the right operand is bound first, then the left one
                                    let mut env3 = env2;
                                    if let Some(r) = &op.r {
                                        env3 = push(&env3, r, Bind::Val(rv));
                                    }
                                    if let Some(l) = &op.l {
                                        env3 = push(&env3, l, Bind::Val(val));
                                    }
                                    val = self.prec_act(pr, op, lpos, n2, &env3)?;
                                    end = n2;
                                    continue 'grow;
                                }
                            }
                        }
                        OpKind::Postfix => {
                            if let Some((n, env2)) = self.items(&op.items, env, end)? {
                                let env3 = match &op.l {
                                    Some(l) => push(&env2, l, Bind::Val(val)),
                                    None => env2,
                                };
                                val = self.prec_act(pr, op, lpos, n, &env3)?;
                                end = n;
                                continue 'grow;
                            }
                        }
                        _ => {}
                    }
                }
            }
            break;
        }
        if let Some(t) = &mut self.trace {
            t.push((0, Tr::Leave(min), 0));
        }
        Ok(Some((end, val)))
    }
}
