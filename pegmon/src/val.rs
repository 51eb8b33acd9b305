//! Parse results as data, and the helpers that generated actions call.
use std::cell::{Cell, RefCell};

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Val {
    U,
    /// element code
    E(u32),
    /// slice of the input: offset and length (bytes / elements / positions)
    S(usize, usize),
    /// a str that is not a slice of the current input
    X(String),
    N(u64),
    O(Option<Box<Val>>),
    L(Vec<Val>),
    T(u32, Vec<Val>),
}

impl Val {
    pub fn hash64(&self) -> u64 {
        use crate::rng::mix;
        match self {
            Val::U => 11,
            Val::E(c) => mix(*c as u64 ^ 0x1111),
            Val::S(a, b) => mix(mix(*a as u64 ^ 0x2222) ^ *b as u64),
            Val::X(s) => crate::rng::hash_str(s),
            Val::N(n) => mix(n ^ 0x3333),
            Val::O(None) => 44,
            Val::O(Some(v)) => mix(v.hash64() ^ 0x4444),
            Val::L(v) => v.iter().fold(0x5555, |h, x| mix(h ^ x.hash64())),
            Val::T(i, v) => v.iter().fold(mix(*i as u64 ^ 0x6666), |h, x| mix(h ^ x.hash64())),
        }
    }
    /// number of nodes
    pub fn size(&self) -> usize {
        match self {
            Val::O(Some(v)) => 1 + v.size(),
            Val::L(v) | Val::T(_, v) => 1 + v.iter().map(|x| x.size()).sum::<usize>(),
            _ => 1,
        }
    }
}

/// An element type usable in generated grammars over slices.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Tok {
    K(u8),
}

/// A slice of the monitored custom input: positions, not offsets.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct MonSlice(pub usize, pub usize);

thread_local! {
    /// (address, length in bytes, element size) of the input being parsed
    static BASE: Cell<(usize, usize, usize)> = Cell::new((0, 0, 1));
    pub static TICKS: RefCell<Vec<(u32, usize)>> = RefCell::new(Vec::new());
    static ACTIONS: Cell<u64> = Cell::new(0);
}

pub fn set_base(b: (usize, usize, usize)) -> (usize, usize, usize) {
    BASE.with(|c| c.replace(b))
}

pub fn actions_run() -> u64 {
    ACTIONS.with(|c| c.get())
}
fn count_action() {
    ACTIONS.with(|c| c.set(c.get() + 1));
    run_hook();
}

thread_local! {
    static HOOK: RefCell<Option<std::rc::Rc<dyn Fn(u64)>>> = RefCell::new(None);
    static POINT: Cell<u64> = Cell::new(0);
}
/// what actions and guards run first (fault injection, nested calls, delays)
pub fn set_hook(h: Option<std::rc::Rc<dyn Fn(u64)>>) -> Option<std::rc::Rc<dyn Fn(u64)>> {
    HOOK.with(|c| c.replace(h))
}
fn run_hook() {
    let h = HOOK.with(|c| c.borrow().clone());
    if let Some(h) = h {
        let n = POINT.with(|p| p.replace(p.get() + 1));
        h(n)
    }
}
pub fn run_hook_from_input(h: &std::rc::Rc<dyn Fn(u64)>) {
    let n = POINT.with(|p| p.replace(p.get() + 1));
    h(n)
}

pub fn tick(id: u32, pos: usize) {
    TICKS.with(|t| t.borrow_mut().push((id, pos)));
}

fn slice_val(ptr: usize, bytes: usize) -> Option<Val> {
    let (b, len, es) = BASE.with(|c| c.get());
    if ptr >= b && ptr + bytes <= b + len && (ptr - b) % es == 0 && bytes % es == 0 {
        Some(Val::S((ptr - b) / es, bytes / es))
    } else {
        None
    }
}

pub trait V {
    fn v(&self) -> Val;
}
impl V for () {
    fn v(&self) -> Val {
        Val::U
    }
}
impl V for char {
    fn v(&self) -> Val {
        Val::E(*self as u32)
    }
}
impl V for u8 {
    fn v(&self) -> Val {
        Val::E(*self as u32)
    }
}
impl V for Tok {
    fn v(&self) -> Val {
        let Tok::K(n) = self;
        Val::E(*n as u32)
    }
}
impl V for usize {
    fn v(&self) -> Val {
        Val::N(*self as u64)
    }
}
impl V for str {
    fn v(&self) -> Val {
        slice_val(self.as_ptr() as usize, self.len()).unwrap_or_else(|| Val::X(self.to_string()))
    }
}
impl V for [u8] {
    fn v(&self) -> Val {
        slice_val(self.as_ptr() as usize, self.len())
            .unwrap_or_else(|| Val::X(format!("foreign bytes {:?}", self)))
    }
}
impl V for [Tok] {
    fn v(&self) -> Val {
        slice_val(self.as_ptr() as usize, std::mem::size_of_val(self))
            .unwrap_or_else(|| Val::X(format!("foreign toks {:?}", self)))
    }
}
impl V for MonSlice {
    fn v(&self) -> Val {
        Val::S(self.0, self.1.wrapping_sub(self.0))
    }
}
impl V for Val {
    fn v(&self) -> Val {
        self.clone()
    }
}
impl<T: V + ?Sized> V for &T {
    fn v(&self) -> Val {
        (**self).v()
    }
}
impl<T: V> V for Option<T> {
    fn v(&self) -> Val {
        Val::O(self.as_ref().map(|x| Box::new(x.v())))
    }
}
impl<T: V> V for Vec<T> {
    fn v(&self) -> Val {
        Val::L(self.iter().map(|x| x.v()).collect())
    }
}

pub fn mk(id: u32, v: Vec<Val>) -> Val {
    count_action();
    Val::T(id, v)
}

pub const COND_MSGS: [&str; 8] = [
    "cond0", "odd thing", "cond2", "zeta", "alpha", "\"quoted\"", "EOF-ish", "cond7",
];

/// The deterministic predicate behind conditional actions.
pub fn cond_ok(id: u32, v: &[Val]) -> Result<(), &'static str> {
    let h = v.iter().fold(crate::rng::mix(id as u64 ^ 0xc0d), |h, x| crate::rng::mix(h ^ x.hash64()));
    // ids divisible by 4 always accept, id % 4 == 1 always rejects; the rest
    // depend on the bound values
    let ok = match id % 4 {
        0 => true,
        1 => h % 8 == 0,
        _ => h % 3 != 0,
    };
    if ok {
        Ok(())
    } else {
        Err(COND_MSGS[(id as usize / 4 + (h as usize >> 20) % 2) % 8])
    }
}

pub fn cond(id: u32, v: Vec<Val>) -> Result<Val, &'static str> {
    count_action();
    cond_ok(id, &v)?;
    Ok(Val::T(id, v))
}
pub fn condu(id: u32, v: Vec<Val>) -> Result<(), &'static str> {
    count_action();
    cond_ok(id, &v)
}

pub fn gd_code(id: u32, c: u32) -> bool {
    crate::rng::mix(crate::rng::mix(id as u64) ^ c as u64) % 2 == 0
}
/// The deterministic predicate behind pattern guards.
pub fn gd<T: V>(id: u32, c: T) -> bool {
    run_hook();
    match c.v() {
        Val::E(c) => gd_code(id, c),
        _ => false,
    }
}
