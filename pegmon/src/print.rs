//! Writing an abstract grammar down in rust-peg's notation, in one of many
//! equivalent surface styles.
use crate::ast::*;
use crate::rng::Rng;

pub struct Srcs;
impl Srcs {
    pub fn lit(&self, s: &str) -> String {
        lit_src(s)
    }
}

#[derive(Clone, Copy, Debug, Default)]
pub struct Style {
    /// percentage of sub-expressions wrapped in redundant parentheses
    pub parens: u32,
    /// 0 compact, 1 spaced, 2 newlines and comments
    pub ws: u32,
    /// percentage of rules closed with `;`
    pub semi: u32,
    /// redundant wrappers with no meaning: `e*` as `e*<0,>`-like spellings are NOT used,
    /// only trailing commas in lists
    pub commas: u32,
}

pub fn lit_src(s: &str) -> String {
    let h = crate::rng::hash_str(s);
    if (s.contains('"') || s.contains('\\')) && h % 2 == 0 && !s.contains('\n') && !s.contains('\r') && !s.contains('#') {
        return format!("r#\"{}\"#", s);
    }
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if !c.is_ascii() && h % 3 == 0 => o.push_str(&format!("\\u{{{:x}}}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn elem_src(c: u32, kind: Kind) -> String {
    match kind {
        Kind::Bytes => {
            if (0x21..0x7f).contains(&c) && c != '\'' as u32 && c != '\\' as u32 {
                format!("b'{}'", c as u8 as char)
            } else {
                format!("{}u8", c)
            }
        }
        Kind::Toks => format!("{}", c),
        _ => match char::from_u32(c).unwrap() {
            '\n' => "'\\n'".into(),
            '\r' => "'\\r'".into(),
            '\t' => "'\\t'".into(),
            '\'' => "'\\''".into(),
            '\\' => "'\\\\'".into(),
            c => format!("'{}'", c),
        },
    }
}

fn ranges_src(r: &[(u32, u32)], kind: Kind) -> String {
    r.iter()
        .map(|(a, b)| {
            let x = if a == b {
                elem_src(*a, kind)
            } else {
                format!("{}..={}", elem_src(*a, kind), elem_src(*b, kind))
            };
            if kind == Kind::Toks {
                format!("Tok::K({})", x)
            } else {
                x
            }
        })
        .collect::<Vec<_>>()
        .join(" | ")
}

pub fn pat_src(p: &Pat, kind: Kind) -> String {
    let neg = if p.neg { "^" } else { "" };
    let set = if p.any { "_".to_string() } else { ranges_src(&p.ranges, kind) };
    match (&p.guard, &p.cap) {
        (Some(Guard::Hash(id, c)), _) => {
            if p.any {
                format!("[{} if gd({}, {})]", c, id, c)
            } else {
                format!("[{} @ ({}) if gd({}, {})]", c, set, id, c)
            }
        }
        (Some(Guard::Eq(c, v)), _) => format!("[{} if {} == {}]", c, c, v),
        (None, Some(c)) => {
            if p.any {
                format!("[{}]", c)
            } else if p.ranges.len() > 1 {
                format!("[{} @ ({})]", c, set)
            } else {
                format!("[{} @ {}]", c, set)
            }
        }
        (None, None) => format!("[{}{}]", neg, set),
    }
}

/// Drop whitespace outside of character and string literals, so that token
/// pretty-printing differences do not matter.
pub fn norm(s: &str) -> String {
    let cs: Vec<char> = s.chars().collect();
    let mut o = String::new();
    let mut i = 0;
    while i < cs.len() {
        match cs[i] {
            q @ ('\'' | '"') => {
                o.push(q);
                i += 1;
                while i < cs.len() && cs[i] != q {
                    o.push(cs[i]);
                    if cs[i] == '\\' && i + 1 < cs.len() {
                        i += 1;
                        o.push(cs[i]);
                    }
                    i += 1;
                }
                if i < cs.len() {
                    o.push(q);
                }
            }
            c if c.is_whitespace() => {}
            c => o.push(c),
        }
        i += 1;
    }
    o
}

pub fn ty_src(t: &Ty, kind: Kind) -> String {
    match t {
        Ty::Unit => "()".into(),
        Ty::El => match kind {
            Kind::Bytes => "u8".into(),
            Kind::Toks => "Tok".into(),
            _ => "char".into(),
        },
        Ty::Sl => match kind {
            Kind::Str => "&'input str".into(),
            Kind::Bytes => "&'input [u8]".into(),
            Kind::Toks => "&'input [Tok]".into(),
            Kind::Mon => "MonSlice".into(),
        },
        Ty::Us => "usize".into(),
        Ty::Val => "Val".into(),
        Ty::Opt(t) => format!("Option<{}>", ty_src(t, kind)),
        Ty::Vec(t) => format!("Vec<{}>", ty_src(t, kind)),
    }
}

pub struct Printer<'a> {
    pub g: &'a Grammar,
    pub st: Style,
    /// spelling
    pub rng: Rng,
    /// content: the same for every spelling of a grammar
    crng: Rng,
}

#[derive(Clone, Copy, PartialEq, PartialOrd)]
enum Lv {
    Choice,
    Seq,
    Suffixed,
    Prefixed,
    Primary,
}

impl<'a> Printer<'a> {
    pub fn new(g: &'a Grammar, st: Style, rng: Rng) -> Self {
        Printer { g, st, rng, crng: Rng::new(&[crate::rng::hash_str(&g.name), g.rules.len() as u64]) }
    }

    fn sp(&mut self) -> &'static str {
        match self.st.ws {
            0 => " ",
            1 => {
                if self.rng.pct(50) {
                    "  "
                } else {
                    " "
                }
            }
            _ => *self
                .rng
                .pick(&[" ", " ", " ", "\n    ", " /* c */ ", " // rule x() = \"no\"\n   ", "\t"]),
        }
    }

    /// optional whitespace
    fn o(&mut self) -> &'static str {
        match self.st.ws {
            0 => "",
            1 => {
                if self.rng.pct(50) {
                    " "
                } else {
                    ""
                }
            }
            _ => *self.rng.pick(&["", "", " ", "\n", "/* } */"]),
        }
    }

    fn comma(&mut self) -> &'static str {
        if self.rng.pct(self.st.commas) {
            ","
        } else {
            ""
        }
    }

    fn n(&mut self, n: &N) -> String {
        match n {
            N::Lit(n) => match self.crng.below(24) {
                0 => format!("{}usize", n),
                1 => format!("0x{:x}", n),
                2 => format!("0_{}", n),
                3 => format!("0b{:b}_", n),
                _ => format!("{}", n),
            },
            N::Const(n) => format!("{{{}}}", n),
            N::Var(v) => format!("{{{}}}", v),
            N::Len(v) => format!("{{{}.len()}}", v),
        }
    }

    fn arg(&mut self, a: &Arg) -> String {
        match a {
            Arg::Peg(e) => {
                let s = self.e(e, Lv::Choice);
                format!("<{}{}{}>", self.o(), s, self.o())
            }
            Arg::Us(N::Lit(n)) | Arg::Us(N::Const(n)) => format!("{}", n),
            Arg::Us(N::Var(v)) => v.clone(),
            Arg::Us(N::Len(v)) => format!("{}.len()", v),
            Arg::Str(s) => lit_src(s),
            Arg::El(c) => {
                if self.g.kind == Kind::Toks {
                    format!("Tok::K({})", c)
                } else {
                    elem_src(*c, self.g.kind)
                }
            }
            Arg::Pass(n) => n.clone(),
        }
    }

    fn vars(v: &[String]) -> String {
        format!("vec![{}]", v.iter().map(|v| format!("{}.v()", v)).collect::<Vec<_>>().join(", "))
    }

    fn act(&mut self, a: &Act) -> String {
        let s = self.o();
        match a {
            Act::None => String::new(),
            Act::Unit => ["{}", "{ () }", "{ let _x = 1; }"][self.crng.below(3)].to_string(),
            Act::Pass(l) => format!("{{{}{}{}}}", s, l, s),
            Act::Len(l) => format!("{{ {}.len() }}", l),
            Act::Mk(id, v) => match self.crng.below(3) {
                0 => format!("{{ mk({}, {}) }}", id, Self::vars(v)),
                1 => format!("{{ let r = mk({}, {}); r }}", id, Self::vars(v)),
                _ => format!("{{ return mk({}, {}); }}", id, Self::vars(v)),
            },
            Act::CondMk(id, v) => match self.crng.below(4) {
                0 => format!("{{? cond({}, {}) }}", id, Self::vars(v)),
                1 => format!("{{?{}let r = cond({}, {})?; ::core::result::Result::Ok(r) }}", s, id, Self::vars(v)),
                2 => format!(
                    "{{? match cond({}, {}) {{ ::core::result::Result::Ok(v) => ::core::result::Result::Ok(v), ::core::result::Result::Err(e) => return ::core::result::Result::Err(e) }} }}",
                    id,
                    Self::vars(v)
                ),
                _ => format!(
                    "{{? if let ::core::result::Result::Err(e) = cond({}, {}) {{ return ::core::result::Result::Err(e); }} ::core::result::Result::Ok(mk({}, {})) }}",
                    id,
                    Self::vars(v),
                    id,
                    Self::vars(v)
                ),
            },
            Act::CondUnit(id, v) => format!("{{? condu({}, {}) }}", id, Self::vars(v)),
        }
    }

    fn item(&mut self, it: &Item) -> String {
        match &it.label {
            Some(l) => {
                let o = self.o();
                let o2 = self.o();
                let e = self.e(&it.e, Lv::Suffixed);
                format!("{}{}:{}{}", l, o, o2, e)
            }
            None => self.e(&it.e, Lv::Suffixed),
        }
    }

    fn items(&mut self, its: &[Item]) -> String {
        let mut s = String::new();
        for (i, it) in its.iter().enumerate() {
            if i > 0 {
                s.push_str(self.sp());
            }
            s.push_str(&self.item(it));
        }
        s
    }

    pub fn expr(&mut self, e: &E) -> String {
        self.e(e, Lv::Choice)
    }

    fn e(&mut self, e: &E, want: Lv) -> String {
        let (s, have) = self.e0(e);
        let redundant = self.rng.pct(self.st.parens);
        if have < want || redundant {
            format!("({}{}{})", self.o(), s, self.o())
        } else {
            s
        }
    }

    fn e0(&mut self, e: &E) -> (String, Lv) {
        match e {
            E::Lit(s) if s.is_empty() => (["\"\"", "\"\"", "r\"\"", "r##\"\"##", "\"\\\n  \""][self.crng.below(5)].to_string(), Lv::Primary),
            E::Lit(s) => (lit_src(s), Lv::Primary),
            E::Pat(p) => (pat_src(p, self.g.kind), Lv::Primary),
            E::Rule(i, args) => {
                let name = self.g.rules[*i].name.clone();
                if name.chars().all(|c| c == '_') {
                    return (name, Lv::Primary);
                }
                let a: Vec<String> = args.iter().map(|a| self.arg(a)).collect();
                let j = format!(",{}", self.sp());
                (format!("{}({})", name, a.join(&j)), Lv::Primary)
            }
            E::Param(n) => (format!("{}()", n), Lv::Primary),
            E::Seq(items, act) => {
                let mut s = self.items(items);
                if !matches!(act, Act::None) {
                    if !s.is_empty() {
                        s.push_str(self.sp());
                    }
                    s.push_str(&self.act(act));
                }
                (s, Lv::Seq)
            }
            E::Choice(v) => {
                let mut s = String::new();
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        s.push_str(self.sp());
                        s.push('/');
                        s.push_str(self.sp());
                    }
                    s.push_str(&self.e(x, Lv::Seq));
                }
                (s, if v.len() == 1 { Lv::Seq } else { Lv::Choice })
            }
            E::Opt(x) => (format!("{}{}?", self.e(x, Lv::Prefixed), self.o()), Lv::Suffixed),
            E::Rep(x, b, sep) => {
                let i = self.e(x, Lv::Prefixed);
                let o = self.o();
                let star = if sep.is_some() { "**" } else { "*" };
                let ops = match b {
                    Bound::Star => star.to_string(),
                    Bound::Plus => (if sep.is_some() { "++" } else { "+" }).to_string(),
                    Bound::Exact(n) => format!("{}<{}{}{}>", star, self.o(), self.n(n), self.o()),
                    Bound::Range(a, b) => format!(
                        "{}<{}{},{}{}>",
                        star,
                        a.as_ref().map_or(String::new(), |n| self.n(n)),
                        self.o(),
                        b.as_ref().map_or(String::new(), |n| self.n(n)),
                        self.o()
                    ),
                };
                let s = match sep {
                    Some(s) => format!("{}{}", self.sp(), self.e(s, Lv::Primary)),
                    None => String::new(),
                };
                (format!("{}{}{}{}", i, o, ops, s), Lv::Suffixed)
            }
            E::Pos(x) => (format!("&{}{}", self.o(), self.e(x, Lv::Primary)), Lv::Prefixed),
            E::Neg(x) => (format!("!{}{}", self.o(), self.e(x, Lv::Primary)), Lv::Prefixed),
            E::Slice(x) => (format!("${}{}", self.o(), self.e(x, Lv::Primary)), Lv::Prefixed),
            E::Position => ("position!()".into(), Lv::Primary),
            E::Quiet(x) => (format!("quiet!{{{}{}{}}}", self.o(), self.e(x, Lv::Choice), self.o()), Lv::Primary),
            E::Expected(s) => (format!("expected!({})", lit_src(s)), Lv::Primary),
            E::Custom(c) => (
                match c {
                    Custom::One(id) => format!("#{{|input, pos| custom_one({}, input, pos)}}", id),
                    Custom::Here => "#{|_input, pos| ::peg::RuleResult::Matched(pos, pos)}".into(),
                    Custom::Fail => "#{|_input, _pos| custom_fail()}".into(),
                },
                Lv::Primary,
            ),
            E::LitParam(n) => (format!("##parse_string_literal({})", n), Lv::Primary),
            E::Tick(id) => (format!("##tick({})", id), Lv::Primary),
            E::Prec(p) => {
                let mut s = String::from("precedence!{ ");
                if let Some(id) = p.span {
                    s.push_str(&format!(
                        "lp:position!() nd:@ rp:position!() {{ mk({}, vec![vn(lp), nd, vn(rp)]) }}\n  --\n ",
                        id
                    ));
                }
                for (i, ops) in p.levels.iter().enumerate() {
                    if i > 0 {
                        s.push_str("\n  --\n ");
                    }
                    for op in ops {
                        s.push(' ');
                        let lab = |l: &Option<String>| l.as_ref().map_or(String::new(), |l| format!("{}:", l));
                        let l = lab(&op.l);
                        let r = lab(&op.r);
                        let mid = self.items(&op.items);
                        let pm = if op.paren_marker { "(@)" } else { "@" };
                        match op.kind {
                            OpKind::Infix { left_assoc: true } => {
                                s.push_str(&format!("{}(@) {} {}@", l, mid, r))
                            }
                            OpKind::Infix { left_assoc: false } => {
                                s.push_str(&format!("{}@ {} {}(@)", l, mid, r))
                            }
                            OpKind::Prefix { same: true } => s.push_str(&format!("{} {}(@)", mid, r)),
                            OpKind::Prefix { same: false } => s.push_str(&format!("{} {}@", mid, r)),
                            OpKind::Postfix => s.push_str(&format!("{}{} {}", l, pm, mid)),
                            OpKind::Atom => s.push_str(&mid),
                        }
                        let vars: Vec<String> = op
                            .vars
                            .iter()
                            .map(|v| {
                                if op.l.as_ref() == Some(v) || op.r.as_ref() == Some(v) {
                                    format!("vl({})", v)
                                } else {
                                    format!("{}.v()", v)
                                }
                            })
                            .collect();
                        s.push_str(&format!(" {{ mk({}, vec![{}]) }}\n", op.id, vars.join(", ")));
                    }
                }
                s.push('}');
                (s, Lv::Primary)
            }
        }
    }

    pub fn rule(&mut self, i: usize) -> String {
        let r = &self.g.rules[i];
        let kind = self.g.kind;
        let mut s = String::new();
        match r.cache {
            Cache::No => {}
            Cache::Simple => s.push_str("#[cache]\n"),
            Cache::LeftRec => s.push_str("#[cache_left_rec]\n"),
        }
        if r.no_eof {
            s.push_str("#[no_eof]\n");
        }
        if r.public {
            s.push_str(if self.crng.pct(15) { "pub(crate) " } else { "pub " });
        }
        let under = r.name.chars().all(|c| c == '_');
        s.push_str(&format!("rule {}", r.name));
        if under {
            if self.rng.pct(50) {
                s.push_str("()");
            }
        } else {
            let ps: Vec<String> = r
                .params
                .iter()
                .map(|(n, t)| {
                    format!(
                        "{}:{} {}",
                        n,
                        self.o(),
                        match t {
                            PTy::Rule(t) => format!("rule<{}>", ty_src(t, kind)),
                            PTy::Us => "usize".into(),
                            PTy::Str => "&str".into(),
                            PTy::El => ty_src(&Ty::El, kind),
                        }
                    )
                })
                .collect();
            let c = if ps.is_empty() { "" } else { self.comma() };
            s.push_str(&format!("({}{})", ps.join(", "), c));
        }
        if let Some(t) = &r.ret {
            s.push_str(&format!(" ->{}{}", self.sp(), ty_src(t, kind)));
        }
        s.push_str(self.sp());
        s.push('=');
        s.push_str(self.sp());
        let body = &r.expr;
        s.push_str(&self.e(body, Lv::Choice));
        if self.rng.pct(self.st.semi) {
            s.push(';');
        }
        s.push('\n');
        s
    }

    pub fn grammar(&mut self) -> String {
        let g = self.g;
        let ty = match g.kind {
            Kind::Str => "str",
            Kind::Bytes => "[u8]",
            Kind::Toks => "[Tok]",
            Kind::Mon => "Mon",
        };
        let args: Vec<String> = g.gargs.iter().map(|(n, _)| format!("{}: usize", n)).collect();
        let c = if args.is_empty() { "" } else { self.comma() };
        let mut s = format!("grammar {}({}{}) for {} {{\n", g.name, args.join(", "), c, ty);
        for i in 0..g.rules.len() {
            s.push_str(&self.rule(i));
        }
        s.push_str("}\n");
        s
    }
}
