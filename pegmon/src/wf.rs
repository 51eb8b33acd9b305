//! Reference well-formedness: Ford's nullability, nullable loops and left
//! recursion, computed as fixpoints over the whole grammar.
use crate::ast::*;
use std::collections::BTreeSet;

pub struct Wf<'g> {
    pub g: &'g Grammar,
    pub nullable: Vec<bool>,
    /// what is assumed of things only known at run time (parameters,
    /// computed bounds, custom code): may match nothing, or may not
    pub unk: bool,
}

/// What the grammar's text alone settles.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Verdict {
    Fine,
    Loop,
    LeftRecursion,
    Unknown,
}

pub fn verdict(g: &Grammar) -> Verdict {
    let lo = Wf::with(g, false);
    if !lo.bad_loops().is_empty() {
        return Verdict::Loop;
    }
    if !lo.left_recursive(true).is_empty() {
        return Verdict::LeftRecursion;
    }
    let hi = Wf::with(g, true);
    if hi.bad_loops().is_empty() && !hi.indirect_cycles() {
        return Verdict::Fine;
    }
    Verdict::Unknown
}

impl<'g> Wf<'g> {
    pub fn new(g: &'g Grammar) -> Wf<'g> {
        Wf::with(g, true)
    }

    fn zero(&self, n: &Option<N>) -> bool {
        match n {
            None => true,
            Some(N::Lit(0)) => true,
            Some(N::Const(0)) | Some(N::Var(_)) | Some(N::Len(_)) => self.unk,
            _ => false,
        }
    }

    pub fn with(g: &'g Grammar, unk: bool) -> Wf<'g> {
        let mut w = Wf { g, nullable: vec![false; g.rules.len()], unk };
        loop {
            let mut changed = false;
            for (i, r) in g.rules.iter().enumerate() {
                let n = w.null(&r.expr);
                if n && !w.nullable[i] {
                    w.nullable[i] = true;
                    changed = true;
                }
            }
            if !changed {
                break;
            }
        }
        w
    }

    fn null_items(&self, it: &[Item]) -> bool {
        it.iter().all(|i| self.null(&i.e))
    }

    pub fn null(&self, e: &E) -> bool {
        match e {
            E::Lit(s) => s.is_empty(),
            E::Pat(_) => false,
            E::Rule(i, _) => self.nullable.get(*i).copied().unwrap_or(true),
            E::Param(_) => self.unk,
            E::Seq(it, _) => self.null_items(it),
            E::Choice(v) => v.iter().any(|e| self.null(e)),
            E::Opt(_) | E::Pos(_) | E::Neg(_) => true,
            E::Rep(e, b, _) => match b {
                Bound::Star => true,
                Bound::Plus => self.null(e),
                Bound::Exact(n) => self.zero(&Some(n.clone())) || self.null(e),
                Bound::Range(a, _) => self.zero(a) || self.null(e),
            },
            E::Slice(e) | E::Quiet(e) => self.null(e),
            E::Position => true,
            E::Expected(_) => false,
            E::Custom(Custom::One(_)) | E::Custom(Custom::Fail) => false,
            E::Custom(Custom::Here) => self.unk,
            E::LitParam(_) => false,
            E::Tick(_) => self.unk,
            E::Prec(p) => self.null_operand(p),
        }
    }

    fn null_operand(&self, p: &Prec) -> bool {
        // least fixpoint: a prefix operator needs a nullable operand, so it adds nothing
        p.levels.iter().flatten().any(|o| match o.kind {
            OpKind::Atom => self.null_items(&o.items),
            _ => false,
        })
    }

    /// Loops whose body can match without consuming input; each entry names the construct.
    pub fn bad_loops(&self) -> Vec<&'static str> {
        let mut out = vec![];
        for r in &self.g.rules {
            self.loops(&r.expr, &mut out);
        }
        out
    }

    fn loops(&self, e: &E, out: &mut Vec<&'static str>) {
        match e {
            E::Rep(x, b, s) => {
                let unbounded = matches!(b, Bound::Star | Bound::Plus | Bound::Range(_, None));
                if unbounded && self.null(x) && s.as_ref().map_or(true, |s| self.null(s)) {
                    out.push("repeat");
                }
            }
            E::Prec(p) => {
                let on = self.null_operand(p);
                for o in p.levels.iter().flatten() {
                    match o.kind {
                        OpKind::Prefix { .. } if self.null_items(&o.items) => out.push("prefix"),
                        OpKind::Postfix if self.null_items(&o.items) => out.push("postfix"),
                        OpKind::Infix { .. } if on && self.null_items(&o.items) => out.push("infix"),
                        _ => {}
                    }
                }
            }
            _ => {}
        }
        e.children(&mut |c| self.loops(c, out));
    }

    fn left_items(&self, it: &[Item], out: &mut BTreeSet<usize>) -> bool {
        for i in it {
            self.left(&i.e, out);
            if !self.null(&i.e) {
                return false;
            }
        }
        true
    }

    /// Rules that can be entered from the start of `e` without consuming input.
    pub fn left(&self, e: &E, out: &mut BTreeSet<usize>) {
        match e {
            E::Rule(i, args) => {
                out.insert(*i);
                for a in args {
                    if let (Arg::Peg(e), true) = (a, self.unk) {
                        self.left(e, out);
                    }
                }
            }
            E::Seq(it, _) => {
                self.left_items(it, out);
            }
            E::Rep(x, b, s) => {
                self.left(x, out);
                let once = matches!(b, Bound::Exact(N::Lit(0 | 1)) | Bound::Range(_, Some(N::Lit(0 | 1))));
                if let (Some(s), true, true) = (s, self.null(x), !once || self.unk) {
                    self.left(s, out);
                }
            }
            E::Prec(p) => {
                let on = self.null_operand(p);
                for o in p.levels.iter().flatten() {
                    match o.kind {
                        OpKind::Atom => {
                            self.left_items(&o.items, out);
                        }
                        OpKind::Prefix { .. } => {
                            self.left_items(&o.items, out);
                        }
                        _ => {
                            if on && self.unk {
                                self.left_items(&o.items, out);
                            }
                        }
                    }
                }
            }
            _ => e.children(&mut |c| self.left(c, out)),
        }
    }

    /// Rules on a left-recursive cycle, ignoring cycles through a
    /// `#[cache_left_rec]` rule when `resolve` is set.
    pub fn left_recursive(&self, resolve: bool) -> Vec<usize> {
        let n = self.g.rules.len();
        let edges: Vec<BTreeSet<usize>> = self
            .g
            .rules
            .iter()
            .map(|r| {
                let mut s = BTreeSet::new();
                self.left(&r.expr, &mut s);
                s
            })
            .collect();
        let ok = |i: usize| !(resolve && self.g.rules[i].cache == Cache::LeftRec);
        let mut bad = vec![];
        for i in 0..n {
            if !ok(i) {
                continue;
            }
            let mut seen = vec![false; n];
            let mut todo: Vec<usize> = edges[i].iter().copied().collect();
            while let Some(j) = todo.pop() {
                if j >= n || seen[j] || (j != i && !ok(j)) {
                    continue;
                }
                seen[j] = true;
                if j == i {
                    break;
                }
                todo.extend(edges[j].iter().copied());
            }
            if seen[i] {
                bad.push(i);
            }
        }
        bad
    }

    /// Cycles other than a `#[cache_left_rec]` rule calling itself directly.
    pub fn indirect_cycles(&self) -> bool {
        let n = self.g.rules.len();
        let mut edges: Vec<BTreeSet<usize>> = vec![];
        for (i, r) in self.g.rules.iter().enumerate() {
            let mut s = BTreeSet::new();
            self.left(&r.expr, &mut s);
            if r.cache == Cache::LeftRec {
                s.remove(&i);
            }
            edges.push(s);
        }
        // Kahn
        let mut alive: Vec<bool> = vec![true; n];
        loop {
            let mut removed = false;
            for i in 0..n {
                if alive[i] && !edges[i].iter().any(|j| *j < n && alive[*j]) {
                    alive[i] = false;
                    removed = true;
                }
            }
            if !removed {
                return alive.iter().any(|a| *a);
            }
        }
    }

    pub fn terminating(&self) -> bool {
        self.bad_loops().is_empty() && !self.indirect_cycles()
    }
}
