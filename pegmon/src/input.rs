//! Inputs for a grammar: samples of its own language, near misses of those, and
//! every short string over its alphabet.
use crate::ast::*;
use crate::rng::Rng;
use std::collections::HashSet;

struct Sampler<'g> {
    g: &'g Grammar,
    rng: Rng,
    fuel: i32,
    out: Vec<u32>,
}

#[derive(Clone)]
enum B<'g> {
    Peg(&'g E, Vec<(&'g str, B<'g>)>),
    Str(String),
    El(u32),
    Us(usize),
}
type Env<'g> = Vec<(&'g str, B<'g>)>;

fn get<'a, 'g>(env: &'a Env<'g>, n: &str) -> Option<&'a B<'g>> {
    env.iter().rev().find(|(m, _)| *m == n).map(|(_, b)| b)
}

impl<'g> Sampler<'g> {
    fn text(&mut self, s: &str) {
        if self.g.kind == Kind::Bytes {
            self.out.extend(s.bytes().map(|b| b as u32))
        } else {
            self.out.extend(s.chars().map(|b| b as u32))
        }
    }
    fn num(&mut self, n: &N, env: &Env<'g>) -> usize {
        match n {
            N::Lit(n) | N::Const(n) => *n,
            N::Var(v) => match get(env, v) {
                Some(B::Us(n)) => *n,
                _ => self.rng.below(3),
            },
            N::Len(_) => self.rng.below(3),
        }
    }
    fn call(&mut self, i: usize, args: &'g [Arg], env: &Env<'g>) {
        let r = &self.g.rules[i];
        let mut e2: Env<'g> = self.g.gargs.iter().map(|(n, v)| (n.as_str(), B::Us(*v))).collect();
        for (a, (n, _)) in args.iter().zip(&r.params) {
            let b = match a {
                Arg::Peg(e) => B::Peg(e, env.clone()),
                Arg::Us(x) => B::Us(self.num(x, env)),
                Arg::Str(s) => B::Str(s.clone()),
                Arg::El(c) => B::El(*c),
                Arg::Pass(x) => match get(env, x) {
                    Some(b) => b.clone(),
                    None => B::El(*self.rng.clone().pick(&self.g.alphabet)),
                },
            };
            e2.push((n, b));
        }
        self.e(&r.expr, &e2);
    }
    fn items(&mut self, it: &'g [Item], env: &Env<'g>) {
        let it: Vec<&'g Item> = it.iter().collect();
        for i in it {
            self.e(&i.e, env);
        }
    }
    fn e(&mut self, e: &'g E, env: &Env<'g>) {
        self.fuel -= 1;
        if self.fuel < -400 || self.out.len() > 60 {
            return;
        }
        let low = self.fuel <= 0;
        match e {
            E::Lit(s) => self.text(s),
            E::Pat(p) => {
                let al = self.g.alphabet.clone();
                let mut c = *self.rng.pick(&al);
                if let Some(Guard::Eq(_, v)) = &p.guard {
                    if let Some(B::El(x)) = get(env, v) {
                        c = *x;
                    }
                } else if !p.any && !p.neg {
                    let (a, b) = *self.rng.pick(&p.ranges);
                    let inside: Vec<u32> = al.iter().copied().filter(|c| a <= *c && *c <= b).collect();
                    c = if inside.is_empty() { a } else { *self.rng.pick(&inside) };
                } else if p.neg {
                    for _ in 0..8 {
                        if !p.ranges.iter().any(|(a, b)| *a <= c && c <= *b) {
                            break;
                        }
                        c = *self.rng.pick(&al);
                    }
                }
                self.out.push(c)
            }
            E::Rule(i, args) => self.call(*i, args, env),
            E::Param(n) => {
                if let Some(B::Peg(e, env2)) = get(env, n).cloned() {
                    self.e(e, &env2)
                }
            }
            E::Seq(it, _) => self.items(it, env),
            E::Choice(v) => {
                let i = if low { v.len() - 1 } else { self.rng.below(v.len()) };
                self.e(&v[i], env)
            }
            E::Opt(x) => {
                if !low && self.rng.pct(60) {
                    self.e(x, env)
                }
            }
            E::Rep(x, b, sep) => {
                let (min, max) = match b {
                    Bound::Star => (0, None),
                    Bound::Plus => (1, None),
                    Bound::Exact(n) => {
                        let n = self.num(n, env);
                        (n, Some(n))
                    }
                    Bound::Range(a, b) => {
                        let a = a.as_ref().map_or(0, |n| self.num(n, env));
                        let b = b.as_ref().map(|n| self.num(n, env));
                        (a, b)
                    }
                };
                let mut n = if low { min } else { min + self.rng.below(3) };
                if let Some(m) = max {
                    // at the bound, and one over, are the interesting counts
                    n = match self.rng.below(5) {
                        0 => m,
                        1 => m + 1,
                        2 => min.saturating_sub(1),
                        _ => n.min(m.max(min)),
                    };
                }
                for k in 0..n.min(5) {
                    if k > 0 {
                        if let Some(s) = sep {
                            self.e(s, env)
                        }
                    }
                    self.e(x, env)
                }
                if n > 0 && self.rng.pct(12) {
                    if let Some(s) = sep {
                        self.e(s, env)
                    }
                }
            }
            E::Pos(_) | E::Neg(_) | E::Position | E::Expected(_) | E::Tick(_) => {}
            E::Slice(x) | E::Quiet(x) => self.e(x, env),
            E::Custom(Custom::One(_)) => {
                let al = self.g.alphabet.clone();
                let c = *self.rng.pick(&al);
                self.out.push(c)
            }
            E::Custom(_) => {}
            E::LitParam(n) => {
                if let Some(B::Str(s)) = get(env, n).cloned() {
                    self.text(&s)
                }
            }
            E::Prec(p) => self.prec(p, env, 0),
        }
    }
    fn prec(&mut self, p: &'g Prec, env: &Env<'g>, depth: u32) {
        let ops: Vec<&'g Op> = p.levels.iter().flatten().collect();
        let ops = &ops[..];
        let atoms: Vec<&'g Op> = ops.iter().copied().filter(|o| matches!(o.kind, OpKind::Atom)).collect();
        let pre: Vec<&'g Op> = ops.iter().copied().filter(|o| matches!(o.kind, OpKind::Prefix { .. })).collect();
        let bin: Vec<&'g Op> = ops.iter().copied().filter(|o| matches!(o.kind, OpKind::Infix { .. })).collect();
        let post: Vec<&'g Op> = ops.iter().copied().filter(|o| matches!(o.kind, OpKind::Postfix)).collect();
        let n = if self.fuel <= 0 || depth > 1 { 1 } else { 1 + self.rng.below(6) };
        for k in 0..n {
            if k > 0 {
                if bin.is_empty() {
                    break;
                }
                let o = *self.rng.pick(&bin);
                self.items(&o.items, env);
            }
            while !pre.is_empty() && self.rng.pct(28) {
                let o = *self.rng.pick(&pre);
                self.items(&o.items, env);
            }
            if !atoms.is_empty() {
                let o = *self.rng.pick(&atoms);
                self.items(&o.items, env);
            }
            while !post.is_empty() && self.rng.pct(28) {
                let o = *self.rng.pick(&post);
                self.items(&o.items, env);
            }
        }
    }
}

fn all_codes(g: &Grammar) -> Vec<u32> {
    let mut v = g.alphabet.clone();
    // one element the grammar does not know
    v.push(match g.kind {
        Kind::Toks => 200,
        Kind::Bytes => 'z' as u32,
        _ => 'z' as u32,
    });
    if g.kind == Kind::Bytes {
        // multi-byte literals contribute bytes
        v.push(0xc3);
        v.push(0xa9);
    }
    v
}

pub fn samples(g: &Grammar, ri: usize, args: &[Arg], n: usize) -> Vec<Vec<u32>> {
    let mut rng = Rng::new(&[77]);
    (0..n)
        .map(|_| {
            let fuel = 6 + rng.below(40) as i32;
            let mut s = Sampler { g, rng: rng.clone(), fuel, out: vec![] };
            s.call(ri, args, &vec![]);
            rng.next();
            s.out
        })
        .filter(|v| v.len() <= 64 && valid(g.kind, v))
        .collect()
}

/// `n` inputs (a few more or fewer), without duplicates, deterministic.
pub fn inputs(g: &Grammar, ri: usize, args: &[Arg], seed: &[u64], n: usize, accepts: &mut dyn FnMut(&[u32]) -> bool) -> Vec<Vec<u32>> {
    let mut rng = Rng::new(seed);
    let mut seen: HashSet<Vec<u32>> = HashSet::new();
    let mut out: Vec<Vec<u32>> = vec![];
    let mut add = |v: Vec<u32>, out: &mut Vec<Vec<u32>>| {
        if valid(g.kind, &v) && seen.insert(v.clone()) {
            out.push(v);
        }
    };
    add(vec![], &mut out);
    // exhaustive short strings, a third of the budget
    let al = g.alphabet.clone();
    let mut layer: Vec<Vec<u32>> = vec![vec![]];
    'ex: for _ in 0..4 {
        let mut next = vec![];
        for p in &layer {
            for c in &al {
                let mut q = p.clone();
                q.push(*c);
                add(q.clone(), &mut out);
                next.push(q);
                if out.len() >= n / 3 {
                    break 'ex;
                }
            }
        }
        layer = next;
    }
    let codes = all_codes(g);
    let mut tries = 0;
    let mut accepted = 0;
    while out.len() < n && tries < n * 5 {
        tries += 1;
        let fuel = 8 + rng.below(50) as i32;
        let mut s = Sampler { g, rng: rng.clone(), fuel, out: vec![] };
        s.call(ri, args, &vec![]);
        let mut v = s.out;
        rng.next();
        rng.next();
        if tries % 2 == 0 {
            let m = 1 + rng.below(3);
            for _ in 0..m {
                let at = rng.below(v.len() + 1);
                match rng.below(6) {
                    0 if !v.is_empty() => {
                        v.remove(at.min(v.len() - 1));
                    }
                    1 => v.insert(at, *rng.pick(&codes)),
                    2 if !v.is_empty() => {
                        let at = at.min(v.len() - 1);
                        v[at] = *rng.pick(&codes);
                    }
                    3 => v.truncate(at),
                    4 => {
                        let tail = v[at..].to_vec();
                        v.extend(tail);
                    }
                    _ => v.push(*rng.pick(&codes)),
                }
            }
        }
        if tries > 3 * n {
            let l = 1 + rng.below(8);
            v = (0..l).map(|_| *rng.pick(&al)).collect();
        }
        if v.len() > 64 || seen.contains(&v) || !valid(g.kind, &v) {
            continue;
        }
        // rejected inputs are easy to come by: keep room for accepted ones
        let ok = accepts(&v);
        if ok {
            accepted += 1;
        } else if tries < 3 * n && out.len() - accepted > n * 2 / 3 {
            continue;
        }
        seen.insert(v.clone());
        out.push(v);
    }
    out
}

fn valid(k: Kind, v: &[u32]) -> bool {
    v.iter().all(|c| match k {
        Kind::Bytes | Kind::Toks => *c <= 255,
        _ => char::from_u32(*c).is_some(),
    })
}
