//! Abstract grammars: what the generator makes, the printer writes down and the
//! reference model interprets.

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ty {
    Unit,
    El,
    Sl,
    Us,
    Val,
    Opt(Box<Ty>),
    Vec(Box<Ty>),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    Str,
    Bytes,
    Toks,
    Mon,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Cache {
    No,
    Simple,
    LeftRec,
}

#[derive(Clone, Debug, PartialEq)]
pub enum PTy {
    Rule(Ty),
    Us,
    Str,
    El,
}

#[derive(Clone, Debug)]
pub struct Grammar {
    pub kind: Kind,
    pub name: String,
    pub alphabet: Vec<u32>,
    pub rules: Vec<Rule>,
    /// grammar-level arguments, all `usize`
    pub gargs: Vec<(String, usize)>,
}

#[derive(Clone, Debug)]
pub struct Rule {
    pub name: String,
    pub ret: Option<Ty>,
    pub params: Vec<(String, PTy)>,
    pub expr: E,
    pub cache: Cache,
    pub public: bool,
    pub no_eof: bool,
    /// argument tuples an exported rule with Rust parameters is called with
    pub calls: Vec<Vec<Arg>>,
}

#[derive(Clone, Debug)]
pub enum Arg {
    Peg(E),
    Us(N),
    Str(String),
    El(u32),
    /// pass one of our own parameters on, by name (Rust expression)
    Pass(String),
}

#[derive(Clone, Debug, PartialEq)]
pub enum N {
    Lit(usize),
    Const(usize),
    Var(String),
    /// `{label.len()}`
    Len(String),
}

#[derive(Clone, Debug)]
pub enum Bound {
    Star,
    Plus,
    Exact(N),
    Range(Option<N>, Option<N>),
}

#[derive(Clone, Debug)]
pub struct Item {
    pub label: Option<String>,
    pub e: E,
}

#[derive(Clone, Debug)]
pub enum Act {
    None,
    /// `{ mk(id, vec![..]) }`
    Mk(u32, Vec<String>),
    /// `{ label }`
    Pass(String),
    /// `{ label.len() }`
    Len(String),
    /// `{}`
    Unit,
    /// `{? cond(id, vec![..]) }` yielding Val
    CondMk(u32, Vec<String>),
    /// `{? condu(id, vec![..]) }` yielding ()
    CondUnit(u32, Vec<String>),
}

#[derive(Clone, Debug)]
pub enum Guard {
    /// `c if gd(id, c)`
    Hash(u32, String),
    /// `c if c == param`
    Eq(String, String),
}

#[derive(Clone, Debug)]
pub struct Pat {
    pub neg: bool,
    pub any: bool,
    pub ranges: Vec<(u32, u32)>,
    pub cap: Option<String>,
    pub guard: Option<Guard>,
}

#[derive(Clone, Debug)]
pub enum OpKind {
    Infix { left_assoc: bool },
    Prefix { same: bool },
    Postfix,
    Atom,
}

#[derive(Clone, Debug)]
pub struct Op {
    pub kind: OpKind,
    pub l: Option<String>,
    pub r: Option<String>,
    pub items: Vec<Item>,
    pub id: u32,
    pub vars: Vec<String>,
    /// print the postfix/infix left marker as `(@)` (no meaning for postfix)
    pub paren_marker: bool,
}

#[derive(Clone, Debug)]
pub struct Prec {
    pub levels: Vec<Vec<Op>>,
    /// span capture rule in front of the first level: action id
    pub span: Option<u32>,
}

#[derive(Clone, Debug)]
pub enum Custom {
    /// match one element accepted by the hash predicate; yields the element
    One(u32),
    /// match nothing, yields the position
    Here,
    /// always fails (unit)
    Fail,
}

#[derive(Clone, Debug)]
pub enum E {
    Lit(String),
    Pat(Pat),
    Rule(usize, Vec<Arg>),
    Param(String),
    Seq(Vec<Item>, Act),
    Choice(Vec<E>),
    Opt(Box<E>),
    Rep(Box<E>, Bound, Option<Box<E>>),
    Pos(Box<E>),
    Neg(Box<E>),
    Slice(Box<E>),
    Position,
    Quiet(Box<E>),
    Expected(String),
    Custom(Custom),
    /// `##parse_string_literal(param)`
    LitParam(String),
    /// `##tick(id)`: always matches, consumes nothing, logs (id, pos); Mon only
    Tick(u32),
    Prec(Prec),
}

impl E {
    pub fn seq(items: Vec<Item>, act: Act) -> E {
        if items.len() == 1 && matches!(act, Act::None) {
            return items.into_iter().next().unwrap().e;
        }
        E::Seq(items, act)
    }
    pub fn un(e: E) -> Item {
        Item { label: None, e }
    }

    pub fn children<'a>(&'a self, f: &mut dyn FnMut(&'a E)) {
        match self {
            E::Lit(_) | E::Pat(_) | E::Param(_) | E::Position | E::Expected(_) | E::Custom(_)
            | E::LitParam(_) | E::Tick(_) => {}
            E::Rule(_, args) => {
                for a in args {
                    if let Arg::Peg(e) = a {
                        f(e)
                    }
                }
            }
            E::Seq(it, _) => it.iter().for_each(|i| f(&i.e)),
            E::Choice(v) => v.iter().for_each(|e| f(e)),
            E::Opt(e) | E::Pos(e) | E::Neg(e) | E::Slice(e) | E::Quiet(e) => f(e),
            E::Rep(e, _, s) => {
                f(e);
                if let Some(s) = s {
                    f(s)
                }
            }
            E::Prec(p) => {
                for l in &p.levels {
                    for o in l {
                        o.items.iter().for_each(|i| f(&i.e))
                    }
                }
            }
        }
    }

    pub fn tag(&self) -> &'static str {
        match self {
            E::Lit(_) => "literal",
            E::Pat(p) => {
                if p.neg {
                    "neg_pattern"
                } else if p.guard.is_some() {
                    "guard_pattern"
                } else if p.cap.is_some() {
                    "capture_pattern"
                } else if p.any {
                    "any"
                } else {
                    "pattern"
                }
            }
            E::Rule(_, a) => {
                if a.is_empty() {
                    "rule_call"
                } else {
                    "rule_call_args"
                }
            }
            E::Param(_) => "param_call",
            E::Seq(_, Act::None) => "sequence",
            E::Seq(_, Act::CondMk(..)) | E::Seq(_, Act::CondUnit(..)) => "conditional_action",
            E::Seq(..) => "action",
            E::Choice(_) => "choice",
            E::Opt(_) => "optional",
            E::Rep(_, b, s) => match (b, s.is_some()) {
                (Bound::Star, false) => "repeat_star",
                (Bound::Star, true) => "repeat_star_sep",
                (Bound::Plus, false) => "repeat_plus",
                (Bound::Plus, true) => "repeat_plus_sep",
                (Bound::Exact(_), false) => "repeat_exact",
                (Bound::Exact(_), true) => "repeat_exact_sep",
                (Bound::Range(..), false) => "repeat_range",
                (Bound::Range(..), true) => "repeat_range_sep",
            },
            E::Pos(_) => "pos_lookahead",
            E::Neg(_) => "neg_lookahead",
            E::Slice(_) => "slice",
            E::Position => "position",
            E::Quiet(_) => "quiet",
            E::Expected(_) => "expected",
            E::Custom(_) => "custom",
            E::LitParam(_) => "method",
            E::Tick(_) => "tick",
            E::Prec(_) => "precedence",
        }
    }
}
