//! Grammars that need not be well-formed: everything is `()`-typed, nullable
//! pieces, loops and recursion are common. The reference verdict says which of
//! them the macro has to reject.
use crate::ast::*;
use crate::rng::Rng;
use crate::wf::{self, Verdict};

struct Raw {
    rng: Rng,
    n: usize,
    arity: Vec<usize>,
    me: usize,
    budget: i32,
    nid: u32,
    /// percent: how freely recursion and nullable pieces are used
    wild: u32,
}

pub fn grammar(seed: u64, batch: u64, idx: u64, attempt: u64) -> Grammar {
    let mut rng = Rng::new(&[0x7a77, seed, batch, idx, attempt]);
    let n = rng.range(1, 6);
    let arity: Vec<usize> = (0..n).map(|i| if i > 0 && rng.pct(20) { rng.range(1, 2) } else { 0 }).collect();
    let wild = *rng.pick(&[6, 14, 30, 45]);
    let mut r = Raw { rng, n, arity, me: 0, budget: 0, nid: 1 + idx as u32 * 1000, wild };
    let mut rules = vec![];
    for i in 0..n {
        r.me = i;
        r.budget = r.rng.range(3, 16) as i32;
        let d = r.rng.range(2, 4);
        let e = r.expr(d, 0);
        let cache = if r.arity[i] == 0 && r.rng.pct(18) {
            if r.rng.pct(60) { Cache::LeftRec } else { Cache::Simple }
        } else {
            Cache::No
        };
        let ret = Some(Ty::Unit);
        rules.push(Rule {
            name: format!("r{}", i),
            ret,
            params: (0..r.arity[i]).map(|k| (format!("p{}", k), PTy::Rule(Ty::Unit))).collect(),
            expr: unit(e),
            cache,
            public: r.arity[i] == 0,
            no_eof: r.arity[i] == 0 && r.rng.pct(30),
            calls: vec![vec![]],
        });
    }
    Grammar { kind: Kind::Str, name: format!("g{}", idx), alphabet: vec!['a' as u32, 'b' as u32], rules, gargs: vec![] }
}

pub fn terminating(seed: u64, batch: u64, idx: u64) -> Grammar {
    for attempt in 0.. {
        let g = grammar(seed, batch, idx, attempt);
        if wf::verdict(&g) == Verdict::Fine && g.rules.len() > 1 && !template_cycle(&g) && !all_fail_choice(&g) {
            return g;
        }
    }
    unreachable!()
}

/// Does a rule with rule parameters reach itself? Its instances would have ever
/// deeper closure types, which Rust cannot express.
fn template_cycle(g: &Grammar) -> bool {
    fn calls(e: &E, out: &mut Vec<usize>) {
        if let E::Rule(j, _) = e {
            out.push(*j)
        }
        e.children(&mut |c| calls(c, out));
    }
    let next: Vec<Vec<usize>> = g
        .rules
        .iter()
        .map(|r| {
            let mut v = vec![];
            calls(&r.expr, &mut v);
            v
        })
        .collect();
    (0..g.rules.len()).filter(|i| !g.rules[*i].params.is_empty()).any(|i| {
        let mut seen = vec![false; g.rules.len()];
        let mut todo = next[i].clone();
        while let Some(j) = todo.pop() {
            if j == i {
                return true;
            }
            if !std::mem::replace(&mut seen[j], true) {
                todo.extend(next[j].iter().copied());
            }
        }
        false
    })
}

/// A choice of nothing but expected!(): no type for Rust to infer.
fn all_fail_choice(g: &Grammar) -> bool {
    fn fails(e: &E) -> bool {
        match e {
            E::Expected(_) => true,
            E::Quiet(e) => fails(e),
            E::Choice(v) => v.iter().all(fails),
            _ => false,
        }
    }
    fn walk(e: &E) -> bool {
        let mut bad = matches!(e, E::Choice(_)) && fails(e);
        e.children(&mut |c| bad |= walk(c));
        bad
    }
    g.rules.iter().any(|r| walk(&r.expr))
}

fn unit(e: E) -> E {
    E::Seq(vec![E::un(e)], Act::Unit)
}

impl Raw {
    fn bound(&mut self) -> Bound {
        let lit = |k: usize| N::Lit(k);
        match self.rng.below(12) {
            0..=3 => Bound::Star,
            4 | 5 => Bound::Plus,
            6 => Bound::Exact(lit(self.rng.below(4))),
            7 => Bound::Range(Some(lit(self.rng.below(3))), None),
            8 => Bound::Range(None, Some(lit(self.rng.below(4)))),
            9 => {
                let a = self.rng.below(3);
                let b = a + self.rng.below(3);
                Bound::Range(Some(lit(a)), Some(lit(b)))
            }
            10 => Bound::Range(Some(N::Const(self.rng.below(3))), None),
            _ => Bound::Range(Some(N::Const(self.rng.below(2))), Some(lit(self.rng.range(1, 3)))),
        }
    }

    fn leaf(&mut self) -> E {
        match self.rng.weighted(&[40, 14, 6, self.wild / 5, self.wild / 5, 4, 3]) {
            0 => E::Lit(self.rng.pick(&["a", "b", "ab", "ba", "aa"]).to_string()),
            1 => E::Pat(Pat { neg: self.rng.pct(25), any: false, ranges: vec![('a' as u32, *self.rng.pick(&['a', 'b']) as u32)], cap: None, guard: None }),
            2 => E::Pat(Pat { neg: false, any: true, ranges: vec![], cap: None, guard: None }),
            3 => E::Lit(String::new()),
            4 => E::Position,
            5 => E::Expected("thing".into()),
            _ => {
                self.nid += 1;
                E::Custom(if self.rng.pct(50) { Custom::Here } else { Custom::One(self.nid) })
            }
        }
    }

    fn call(&mut self, d: usize, pos: usize) -> E {
        // calls at the start of a rule mostly go forward, or every grammar is left recursive
        let j = if pos == 0 && !self.rng.pct(self.wild) {
            if self.me + 1 >= self.n {
                return self.leaf();
            }
            self.rng.range(self.me + 1, self.n - 1)
        } else {
            self.rng.below(self.n)
        };
        let args = (0..self.arity[j]).map(|_| Arg::Peg(unit(self.expr(d.saturating_sub(1), pos)))).collect();
        E::Rule(j, args)
    }

    fn expr(&mut self, d: usize, pos: usize) -> E {
        self.budget -= 1;
        if d == 0 || self.budget <= 0 {
            return if self.rng.pct(25) { self.call(0, pos) } else { self.leaf() };
        }
        let w = self.wild;
        match self.rng.weighted(&[14, 16, 26, 18, 4 + w / 4, 10, 3 + w / 8, 3 + w / 8, 3, 3, 5, if self.arity[self.me] > 0 { 14 } else { 0 }]) {
            0 => self.leaf(),
            1 => self.call(d, pos),
            2 => {
                let k = self.rng.range(2, 3);
                let mut items = vec![];
                for i in 0..k {
                    let next = if i == 0 { pos } else { pos + usize::from(!self.rng.pct(w)) };
                    let e = self.expr(d - 1, next);
                    items.push(E::un(e));
                }
                if self.rng.pct(30) { E::Seq(items, Act::Unit) } else { E::Seq(items, Act::None) }
            }
            3 => {
                let k = self.rng.range(2, 3);
                E::Choice((0..k).map(|_| unit(self.expr(d - 1, pos))).collect())
            }
            4 => E::Opt(Box::new(self.expr(d - 1, pos))),
            5 => {
                let x = if self.rng.pct(100 - w) { self.solid(d - 1, pos) } else { self.expr(d - 1, pos) };
                let b = self.bound();
                let s = if self.rng.pct(35) { Some(Box::new(self.expr(d - 1, pos + 1))) } else { None };
                E::Rep(Box::new(x), b, s)
            }
            6 => E::Pos(Box::new(self.expr(d - 1, pos))),
            7 => E::Neg(Box::new(self.expr(d - 1, pos))),
            8 => E::Slice(Box::new(self.expr(d - 1, pos))),
            9 => E::Quiet(Box::new(self.expr(d - 1, pos))),
            10 => self.prec(d - 1, pos),
            _ => E::Param(format!("p{}", self.rng.below(self.arity[self.me]))),
        }
    }

    /// usually consumes something
    fn solid(&mut self, d: usize, pos: usize) -> E {
        let a = self.rng.pick(&["a", "b", "ab"]).to_string();
        if self.rng.pct(50) {
            return E::Lit(a);
        }
        let e = self.expr(d, pos + 1);
        E::Seq(vec![E::un(E::Lit(a)), E::un(e)], Act::None)
    }

    fn prec(&mut self, d: usize, pos: usize) -> E {
        let nl = self.rng.range(1, 3);
        let mut levels = vec![];
        for l in 0..nl {
            let mut ops = vec![];
            for _ in 0..self.rng.range(1, 2) {
                let kind = match self.rng.below(4) {
                    0 => OpKind::Prefix { same: self.rng.pct(50) },
                    1 => OpKind::Postfix,
                    _ => OpKind::Infix { left_assoc: self.rng.pct(50) },
                };
                ops.push(self.op(d, pos + 1, kind));
            }
            if l + 1 == nl {
                ops.push(self.op(d, pos, OpKind::Atom));
            }
            levels.push(ops);
        }
        E::Prec(Prec { levels, span: None })
    }

    fn op(&mut self, d: usize, pos: usize, kind: OpKind) -> Op {
        let e = if self.rng.pct(self.wild) { self.expr(d.min(1), pos) } else { E::Lit(self.rng.pick(&["a", "b", "ab"]).to_string()) };
        self.nid += 1;
        Op { kind, l: None, r: None, items: vec![E::un(e)], id: self.nid, vars: vec![], paren_marker: self.rng.pct(50) }
    }
}
