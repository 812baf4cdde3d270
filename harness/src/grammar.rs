//! Random combinator expressions, built from the real combinators (type-erased at every node) and, in
//! parallel, evaluated by a reference interpreter that works on character positions.
use crate::driver::Injected;
use crate::iter::{self, Sink, Src, Stage};
use crate::ledger::Tok;
use crate::rng::Rng;
use crate::tseq::{Items, Own, Owned, TSeq, Text};
use parcom_core::measured::{Measureable, Meter, Metrics};
use parcom_core::primitive::BytesDelta;
use parcom_core::{
    MeasuredSequence, ParseError, ParseResult, Parser, ParserOnce, ParserResult, RewindSequence,
    Sequence, UnknownLocation,
};
use parcom_parsers::bin_expr::{Associativity, Operator};
use parcom_parsers::primitive::{any_char, any_item, atom, the_char, the_item};
use parcom_parsers::{BinExprParser, ParserExtension};
use parcom_util::{Either, EitherBoth};
use std::cell::{Cell, RefCell};
use std::fmt::Write as _;
use std::future::Future;
use std::hash::{Hash, Hasher};
use std::pin::Pin;
use std::rc::{Rc, Weak};

// ---------------------------------------------------------------- values and errors

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub enum V {
    Unit,
    Ch(char),
    Ate(usize),
    Pair(Box<V>, Box<V>),
    First(Box<V>),
    Last(Box<V>),
    Got(Box<V>),
    Absent(Box<EV>),
    Rep(Vec<V>, Box<EV>),
    F(u32, Box<V>),
    Term(Box<V>),
    Op(Box<V>, Box<V>, Box<V>),
    Chain(Box<V>, Box<EV>),
    Coll(Vec<V>, Option<Box<EV>>),
    Fold(u32, Vec<V>),
    Scan(u32, u64, Box<V>),
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub enum EV {
    /// failure of a primitive
    Prim,
    Leaf(u32),
    First(Box<EV>),
    Last(Box<EV>),
    Both(Box<EV>, Box<EV>),
    F(u32, Box<EV>),
    From(Box<EV>),
    Rejected(u32, Box<V>),
}

fn b<T>(v: T) -> Box<T> {
    Box::new(v)
}

pub fn hash_of(v: &impl Hash, salt: u64) -> u64 {
    let mut s = std::collections::hash_map::DefaultHasher::new();
    salt.hash(&mut s);
    v.hash(&mut s);
    s.finish()
}

/// value with the tokens of everything it was made from
#[derive(Debug)]
pub struct Va {
    pub v: V,
    pub t: Vec<Tok>,
}

#[derive(Debug)]
pub struct Er {
    pub e: EV,
    pub term: bool,
    pub t: Vec<Tok>,
}

impl Va {
    pub fn new(v: V) -> Va {
        Va {
            v,
            t: vec![Tok::new()],
        }
    }
    pub fn wrap(self, f: impl FnOnce(V) -> V) -> Va {
        Va {
            v: f(self.v),
            t: self.t,
        }
    }
}

impl Er {
    pub fn new(e: EV, term: bool) -> Er {
        Er {
            e,
            term,
            t: vec![Tok::new()],
        }
    }
}

impl ParseError for Er {
    fn should_terminate(&self) -> bool {
        self.term
    }
}

pub fn cat(mut a: Vec<Tok>, b: Vec<Tok>) -> Vec<Tok> {
    a.extend(b);
    a
}

/// error type of fallible mappings; the conversion is visible in the value
#[derive(Debug)]
pub struct Er2(pub Er);
impl From<Er> for Er2 {
    fn from(e: Er) -> Self {
        Er2(Er {
            e: EV::From(b(e.e)),
            term: e.term,
            t: e.t,
        })
    }
}
impl ParseError for Er2 {
    fn should_terminate(&self) -> bool {
        self.0.term
    }
}

// ---------------------------------------------------------------- event log and injection

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub struct Ev {
    pub id: u32,
    /// leaf: units left; callback: hash of the argument
    pub at: u64,
}

thread_local! {
    static LOG: RefCell<Vec<Ev>> = const { RefCell::new(Vec::new()) };
    static PANIC_AT: Cell<u64> = const { Cell::new(u64::MAX) };
    static EVENTS: Cell<u64> = const { Cell::new(0) };
}

pub fn log_reset(panic_at: u64) {
    LOG.with(|l| l.borrow_mut().clear());
    EVENTS.set(0);
    PANIC_AT.set(panic_at);
}
pub fn log_take() -> Vec<Ev> {
    LOG.with(|l| std::mem::take(&mut *l.borrow_mut()))
}
/// exchange the log, to run several parses in turns
pub fn log_swap(l: &mut Vec<Ev>) {
    LOG.with(|m| std::mem::swap(&mut *m.borrow_mut(), l))
}
pub fn event(id: u32, at: u64) {
    LOG.with(|l| l.borrow_mut().push(Ev { id, at }));
    let n = EVENTS.get();
    EVENTS.set(n + 1);
    if n == PANIC_AT.get() {
        PANIC_AT.set(u64::MAX);
        std::panic::panic_any(Injected);
    }
}
pub fn events() -> u64 {
    EVENTS.get()
}

// ---------------------------------------------------------------- grammar

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum Out {
    Ok,
    Miss,
    Fatal,
}

/// which of the two implementations of a combinator a node uses
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum Mode {
    Ref,
    Once,
    /// as the parent asks
    Inherit,
}

pub type B = Box<Node>;

#[derive(Debug, Clone, Hash)]
pub struct Node {
    pub id: u32,
    pub mode: Mode,
    pub k: K,
}

#[derive(Debug, Clone, Hash)]
pub enum K {
    Lit(Vec<char>),
    Any,
    The(char),
    /// consume n elements, then end as told; a recoverable failure if there are fewer
    Eat(usize, Out),
    /// the whole grammar again
    Call,
    Join(B, B),
    Or(B, B),
    Opt(B),
    Rep(B),
    Map(B),
    MapErr(B, bool),
    AndThen(B, u64, bool),
    UnifyOr(B, B),
    UnifyErr(B, B),
    Ref(B),
    Boxed(B),
    Bin(B, B, u64),
    Iter(Src, B, Vec<Stage>, Sink),
}

impl Node {
    /// may succeed without consuming
    pub fn nullable(&self) -> bool {
        match &self.k {
            K::Lit(p) => p.is_empty(),
            K::Any | K::The(_) => false,
            K::Eat(n, o) => *n == 0 && *o == Out::Ok,
            K::Call => true,
            K::Join(x, y) | K::UnifyErr(x, y) => x.nullable() && y.nullable(),
            K::Or(x, y) | K::UnifyOr(x, y) => x.nullable() || y.nullable(),
            K::Opt(_) | K::Rep(_) | K::Iter(..) => true,
            K::Map(x)
            | K::MapErr(x, _)
            | K::AndThen(x, ..)
            | K::Ref(x)
            | K::Boxed(x)
            | K::Bin(x, _, _) => x.nullable(),
        }
    }
    pub fn children(&self) -> Vec<&Node> {
        match &self.k {
            K::Join(x, y) | K::Or(x, y) | K::UnifyOr(x, y) | K::UnifyErr(x, y) | K::Bin(x, y, _) => {
                vec![x, y]
            }
            K::Opt(x)
            | K::Rep(x)
            | K::Map(x)
            | K::MapErr(x, _)
            | K::AndThen(x, ..)
            | K::Ref(x)
            | K::Boxed(x)
            | K::Iter(_, x, _, _) => vec![x],
            _ => vec![],
        }
    }
    pub fn size(&self) -> usize {
        1 + self.children().iter().map(|c| c.size()).sum::<usize>()
    }
    pub fn kind(&self) -> &'static str {
        match &self.k {
            K::Lit(_) => "lit",
            K::Any => "any",
            K::The(_) => "the",
            K::Eat(..) => "eat",
            K::Call => "call",
            K::Join(..) => "join",
            K::Or(..) => "or",
            K::Opt(_) => "optional",
            K::Rep(_) => "repeat",
            K::Map(_) => "map",
            K::MapErr(..) => "map_err",
            K::AndThen(..) => "and_then",
            K::UnifyOr(..) => "unify",
            K::UnifyErr(..) => "unify_err",
            K::Ref(_) => "ref",
            K::Boxed(_) => "boxed",
            K::Bin(..) => "bin_expr",
            K::Iter(_, _, _, Sink::Collect) => "collect",
            K::Iter(_, _, _, Sink::Fold) => "fold",
        }
    }
    pub fn each(&self, f: &mut impl FnMut(&Node)) {
        f(self);
        for c in self.children() {
            c.each(f);
        }
    }
    pub fn show(&self) -> String {
        let mut s = String::new();
        self.show_to(&mut s);
        s
    }
    fn show_to(&self, s: &mut String) {
        match &self.k {
            K::Lit(p) => {
                let _ = write!(s, "{:?}", p.iter().collect::<String>());
            }
            K::The(c) => {
                let _ = write!(s, "the({c:?})");
            }
            K::Eat(n, o) => {
                let _ = write!(s, "eat({n},{o:?})");
            }
            _ => {
                let m = match self.mode {
                    Mode::Ref => "",
                    Mode::Once => "!",
                    Mode::Inherit => "?",
                };
                let _ = write!(s, "{}{}", self.kind(), m);
                if let K::MapErr(_, f) = &self.k {
                    let _ = write!(s, "[{}]", if *f { "fatal" } else { "miss" });
                }
                if let K::Iter(src, _, st, _) = &self.k {
                    let _ = write!(s, "[{src:?}");
                    for x in st {
                        let _ = write!(s, " {x:?}");
                    }
                    s.push(']');
                }
                let c = self.children();
                if !c.is_empty() {
                    s.push('(');
                    for (i, x) in c.iter().enumerate() {
                        if i > 0 {
                            s.push(',');
                        }
                        x.show_to(s);
                    }
                    s.push(')');
                }
            }
        }
    }
}

/// what kind of grammars to produce
#[derive(Debug, Clone)]
pub struct GenCfg {
    pub depth: usize,
    pub alphabet: Vec<char>,
    /// chance of a terminating outcome where one is possible, out of 100
    pub fatal: usize,
    /// relative weight of consuming leaves that fail
    pub eat: usize,
    pub iter: usize,
    pub bin: usize,
    pub modes: bool,
    pub calls: bool,
    /// stages and mappings that seldom reject
    pub lenient: bool,
    /// more than 65536 repetitions
    pub huge: bool,
}

impl Default for GenCfg {
    fn default() -> Self {
        GenCfg {
            depth: 4,
            alphabet: vec!['a', 'b', 'é', '漢', '😀'],
            fatal: 12,
            eat: 3,
            iter: 3,
            bin: 2,
            modes: false,
            calls: true,
            lenient: false,
            huge: false,
        }
    }
}

pub struct Gen<'r> {
    pub rng: &'r mut Rng,
    pub cfg: GenCfg,
    next: u32,
    /// how often the outermost repetitive construct of the next sentence repeats, if not at random
    reps: Option<usize>,
}

impl<'r> Gen<'r> {
    pub fn new(rng: &'r mut Rng, cfg: GenCfg) -> Self {
        Gen {
            rng,
            cfg,
            next: 1,
            reps: None,
        }
    }
    fn mk(&mut self, k: K) -> Node {
        self.next += 1;
        let mode = if self.cfg.modes {
            *self.rng.pick(&[Mode::Ref, Mode::Once, Mode::Inherit, Mode::Inherit])
        } else {
            Mode::Inherit
        };
        Node {
            id: self.next,
            mode,
            k,
        }
    }
    pub fn out(&mut self) -> Out {
        if self.rng.chance(self.cfg.fatal, 100) {
            Out::Fatal
        } else if self.rng.chance(1, 2) {
            Out::Miss
        } else {
            Out::Ok
        }
    }
    fn salt(&mut self) -> u64 {
        let s = self.rng.next();
        if self.cfg.lenient {
            s | 63
        } else {
            s
        }
    }
    fn ch(&mut self) -> char {
        *self.rng.pick(&self.cfg.alphabet.clone())
    }
    pub fn leaf(&mut self) -> Node {
        let w = self.rng.below(8 + self.cfg.eat);
        let k = match w {
            0..=3 => {
                let n = *self.rng.pick(&[0, 1, 1, 1, 2, 2, 3]);
                K::Lit((0..n).map(|_| self.ch()).collect())
            }
            4 | 5 => K::The(self.ch()),
            6 | 7 => K::Any,
            _ => K::Eat(self.rng.below(4), self.out()),
        };
        self.mk(k)
    }
    pub fn node(&mut self, depth: usize) -> Node {
        if depth == 0 || self.rng.chance(1, 8) {
            return self.leaf();
        }
        let total = 18 + self.cfg.iter + self.cfg.bin;
        let w = self.rng.below(total);
        let d = depth - 1;
        let k = match w {
            0..=2 => {
                if self.cfg.calls && self.rng.chance(1, 8) {
                    let c = self.ch();
                    let l = self.mk(K::Lit(vec![c]));
                    let r = self.mk(K::Call);
                    K::Join(b(l), b(r))
                } else {
                    K::Join(b(self.node(d)), b(self.node(d)))
                }
            }
            3..=5 => K::Or(b(self.node(d)), b(self.node(d))),
            6 | 7 => K::Opt(b(self.node(d))),
            8 | 9 => K::Rep(b(self.solid(d))),
            10 => K::Map(b(self.node(d))),
            11 => {
                let fatal = self.rng.below(100) < self.cfg.fatal * 2;
                K::MapErr(b(self.node(d)), fatal)
            }
            12 | 13 => {
                let fatal = self.rng.below(100) < self.cfg.fatal * 2;
                K::AndThen(b(self.node(d)), self.salt(), fatal)
            }
            14 => K::UnifyOr(b(self.node(d)), b(self.node(d))),
            15 => K::UnifyErr(b(self.node(d)), b(self.node(d))),
            16 => K::Ref(b(self.node(d))),
            17 => K::Boxed(b(self.node(d))),
            w if w < 18 + self.cfg.iter => return self.iter(d),
            _ => K::Bin(b(self.node(d)), b(self.solid(d.min(1))), self.rng.next()),
        };
        self.mk(k)
    }
    /// never succeeds without consuming
    pub fn solid(&mut self, depth: usize) -> Node {
        for _ in 0..6 {
            let n = self.node(depth);
            if !n.nullable() {
                return n;
            }
        }
        let c = self.ch();
        self.mk(K::The(c))
    }
    pub fn iter(&mut self, depth: usize) -> Node {
        let src = *self.rng.pick(&[Src::Repeat, Src::Repeat, Src::Optional, Src::Custom]);
        let child = if src == Src::Optional {
            self.node(depth)
        } else {
            self.solid(depth)
        };
        let n = *self.rng.pick(&[0, 1, 1, 2, 2, 3, 4]);
        let stages = (0..n)
            .map(|_| {
                self.next += 1;
                let id = self.next;
                let salt = self.salt();
                let fatal = self.rng.below(100) < self.cfg.fatal * 2;
                let mode = if self.cfg.modes {
                    *self.rng.pick(&[Mode::Ref, Mode::Once, Mode::Inherit, Mode::Inherit])
                } else {
                    Mode::Inherit
                };
                let k = match self.rng.below(6) {
                    0 => iter::StageK::MapEach,
                    1 => iter::StageK::MapWhile(salt),
                    2 => iter::StageK::TryMapEach(salt, fatal),
                    3 => iter::StageK::Scan,
                    _ if self.cfg.lenient => iter::StageK::Take(self.count()),
                    _ if self.rng.chance(1, 8) => iter::StageK::Take(match self.rng.below(4) {
                        // small counts above a power of two: a narrower counter would see them
                        0 | 1 => (1 << self.rng.range(8, 63)) + self.rng.below(3),
                        2 => usize::MAX - self.rng.below(3),
                        _ => 100,
                    }),
                    _ => iter::StageK::Take(*self.rng.pick(&[0, 1, 1, 2, 2, 3, 5])),
                };
                Stage { id, mode, k }
            })
            .collect();
        let sink = *self.rng.pick(&[Sink::Collect, Sink::Fold]);
        self.mk(K::Iter(src, b(child), stages, sink))
    }

    /// a number of repetitions, often around a power of two
    pub fn count(&mut self) -> usize {
        if self.cfg.huge {
            return 65_500 + self.rng.below(4_000);
        }
        match self.rng.below(3) {
            0 => self.rng.range(5, 1500),
            1 => (1usize << self.rng.range(3, 10)) + self.rng.below(4) - 2,
            _ => self.rng.range(5, 80),
        }
    }
    /// a grammar with a flat construct, and inputs that make it long
    pub fn long(&mut self) -> (Node, Vec<Vec<char>>) {
        let d = self.rng.below(2);
        let core = match self.rng.below(if self.cfg.huge { 5 } else { 9 }) {
            0 | 1 => {
                let x = self.solid(d);
                self.mk(K::Rep(b(x)))
            }
            2..=4 => self.iter(d),
            5..=7 => {
                let (t, o) = (self.node(d), self.solid(d));
                let salt = self.rng.next();
                self.mk(K::Bin(b(t), b(o), salt))
            }
            _ => {
                let n = self.rng.range(4, 400);
                let k = K::Lit((0..n).map(|_| self.ch()).collect());
                self.mk(k)
            }
        };
        let root = match self.rng.below(8) {
            0 => {
                let y = self.node(1);
                self.mk(K::Join(b(core), b(y)))
            }
            1 => {
                // all of it is given up
                let (y, z) = (self.leaf(), self.node(1));
                let j = self.mk(K::Join(b(core), b(y)));
                self.mk(K::Or(b(j), b(z)))
            }
            2 => {
                let y = self.leaf();
                let j = self.mk(K::Join(b(core), b(y)));
                let o = self.mk(K::Opt(b(j)));
                let z = self.node(1);
                self.mk(K::Join(b(o), b(z)))
            }
            3 => {
                let y = self.leaf();
                self.mk(K::Or(b(y), b(core)))
            }
            4 => self.mk(K::Map(b(core))),
            _ => core,
        };
        let inputs = (0..2)
            .map(|_| {
                let n = self.count();
                self.reps = Some(n);
                let mut out = Vec::new();
                let mut fuel = 12 * n + 40;
                self.derive(&root, &root, &mut out, &mut fuel);
                self.reps = None;
                match self.rng.below(6) {
                    0 => {
                        let n = self.rng.below(out.len() + 1);
                        out.truncate(n);
                    }
                    1 => {
                        let at = self.rng.below(out.len() + 1);
                        let c = self.ch();
                        out.insert(at, c);
                    }
                    2 => {
                        let c = self.ch();
                        out.push(c);
                    }
                    _ => {}
                }
                out
            })
            .collect();
        (root, inputs)
    }

    /// text the grammar is likely to accept
    pub fn sentence(&mut self, root: &Node) -> Vec<char> {
        let mut out = Vec::new();
        let mut fuel = 40;
        self.derive(root, root, &mut out, &mut fuel);
        out.truncate(24);
        match self.rng.below(8) {
            0 => {
                let n = self.rng.below(out.len() + 1);
                out.truncate(n);
            }
            1 => {
                let at = self.rng.below(out.len() + 1);
                let c = self.ch();
                out.insert(at, c);
            }
            2 if !out.is_empty() => {
                let at = self.rng.below(out.len());
                out[at] = self.ch();
            }
            3 if !out.is_empty() => {
                let at = self.rng.below(out.len());
                out.remove(at);
            }
            4 => {
                for _ in 0..self.rng.below(4) {
                    let c = self.ch();
                    out.push(c);
                }
            }
            5 => {
                out = (0..self.rng.below(8)).map(|_| self.ch()).collect();
            }
            _ => {}
        }
        out
    }
    fn derive(&mut self, n: &Node, root: &Node, out: &mut Vec<char>, fuel: &mut usize) {
        if *fuel == 0 {
            return;
        }
        *fuel -= 1;
        match &n.k {
            K::Lit(p) => out.extend(p),
            K::Any => {
                let c = self.ch();
                out.push(c)
            }
            K::The(c) => out.push(*c),
            K::Eat(k, _) => {
                for _ in 0..*k {
                    let c = self.ch();
                    out.push(c)
                }
            }
            K::Call => self.derive(root, root, out, fuel),
            K::Join(x, y) | K::UnifyErr(x, y) => {
                self.derive(x, root, out, fuel);
                self.derive(y, root, out, fuel);
            }
            K::Or(x, y) | K::UnifyOr(x, y) => {
                let z = if self.rng.chance(1, 2) { x } else { y };
                self.derive(z, root, out, fuel)
            }
            K::Opt(x) => {
                if self.rng.chance(2, 3) {
                    self.derive(x, root, out, fuel)
                }
            }
            K::Rep(x) => {
                let n = self.reps.take().unwrap_or_else(|| self.rng.below(5));
                for _ in 0..n {
                    self.derive(x, root, out, fuel)
                }
            }
            K::Map(x) | K::MapErr(x, _) | K::AndThen(x, ..) | K::Ref(x) | K::Boxed(x) => {
                self.derive(x, root, out, fuel)
            }
            K::Bin(t, o, _) => {
                self.derive(t, root, out, fuel);
                let reps = self.reps.take();
                for _ in 0..reps.unwrap_or_else(|| self.rng.below(5)) {
                    self.derive(o, root, out, fuel);
                    if reps.is_some() || self.rng.chance(9, 10) {
                        self.derive(t, root, out, fuel);
                    }
                }
            }
            K::Iter(src, x, _, _) => {
                let n = if *src == Src::Optional { 1 } else { 6 };
                let reps = match self.reps.take() {
                    Some(r) if *src != Src::Optional => r,
                    _ => self.rng.below(n) + 1,
                };
                for _ in 0..reps {
                    self.derive(x, root, out, fuel)
                }
            }
        }
    }
}

// ---------------------------------------------------------------- shared decisions

pub fn decide(salt: u64, v: &V, fatal: bool) -> Out {
    let h = hash_of(v, salt);
    if salt % 64 == 63 {
        return match h % 3000 {
            0 | 1 => Out::Miss,
            2 if fatal => Out::Fatal,
            _ => Out::Ok,
        };
    }
    match h % 8 {
        0..=4 => Out::Ok,
        5 | 6 => Out::Miss,
        _ => {
            if fatal {
                Out::Fatal
            } else {
                Out::Miss
            }
        }
    }
}

const PRECS: [usize; 8] = [0, 1, 1, 2, 3, 7, usize::MAX - 1, usize::MAX];
/// around the widths of integers
const WIDE_PRECS: [usize; 16] = [
    0,
    1,
    127,
    128,
    255,
    256,
    257,
    65_535,
    65_536,
    i32::MAX as usize,
    u32::MAX as usize,
    1 << 32,
    (1 << 32) + 1,
    isize::MAX as usize,
    isize::MAX as usize + 1,
    usize::MAX,
];

/// precedence and whether right associative
pub fn op_attrs(salt: u64, v: &V) -> (usize, bool) {
    let h = hash_of(v, salt);
    let p = match salt % 6 {
        0 | 3 => PRECS[1 + (h % 2) as usize * 6],
        1 => WIDE_PRECS[(h % 16) as usize],
        _ => PRECS[(h % 8) as usize],
    };
    (p, (h >> 8) & 1 == 1)
}

// ---------------------------------------------------------------- reference interpreter

pub type RefErr = (EV, bool);
pub type RefRes = Result<(V, usize), RefErr>;

pub struct Reference<'a> {
    pub input: &'a [char],
    pub root: &'a Node,
    pub log: Vec<Ev>,
    pub budget: usize,
    pub over: bool,
    /// units left at each character position
    pub left: Vec<u64>,
    pub recovered: u64,
    pub depth: usize,
    /// how many characters of the input have been looked at
    pub peak: usize,
    /// whether it mattered that the input ends where it does
    pub end: bool,
}

impl<'a> Reference<'a> {
    pub fn new(root: &'a Node, input: &'a [char], width: fn(char) -> usize) -> Self {
        let mut left = vec![0u64; input.len() + 1];
        for i in (0..input.len()).rev() {
            left[i] = left[i + 1] + width(input[i]) as u64;
        }
        Reference {
            input,
            root,
            log: Vec::new(),
            budget: 1500.max(input.len() * 60),
            over: false,
            left,
            recovered: 0,
            depth: 0,
            peak: 0,
            end: false,
        }
    }
    /// look at `n` characters from `pos` on
    fn look(&mut self, pos: usize, n: usize) {
        self.end |= pos + n > self.input.len();
        self.peak = self.peak.max((pos + n).min(self.input.len()));
    }
    pub fn leaf_event(&mut self, id: u32, pos: usize) {
        self.log.push(Ev {
            id,
            at: self.left[pos],
        });
        if self.log.len() > self.budget {
            self.over = true;
        }
    }
    pub fn call_event(&mut self, id: u32, v: &V) {
        self.log.push(Ev {
            id,
            at: hash_of(v, 0),
        });
    }
    pub fn call_event_e(&mut self, id: u32, v: &EV) {
        self.log.push(Ev {
            id,
            at: hash_of(v, 1),
        });
    }
    pub fn eval(&mut self, n: &Node, pos: usize) -> RefRes {
        if self.over {
            return Err((EV::Prim, true));
        }
        match &n.k {
            K::Lit(p) => {
                self.leaf_event(n.id, pos);
                let same = self.input[pos..].iter().zip(p).take_while(|(a, b)| a == b);
                let same = same.count();
                self.look(pos, p.len().min(same + 1));
                if self.input[pos..].starts_with(p) {
                    Ok((V::Unit, pos + p.len()))
                } else {
                    Err((EV::Prim, false))
                }
            }
            K::Any => {
                self.leaf_event(n.id, pos);
                self.look(pos, 1);
                match self.input.get(pos) {
                    Some(c) => Ok((V::Ch(*c), pos + 1)),
                    None => Err((EV::Prim, false)),
                }
            }
            K::The(c) => {
                self.leaf_event(n.id, pos);
                self.look(pos, 1);
                if self.input.get(pos) == Some(c) {
                    Ok((V::Unit, pos + 1))
                } else {
                    Err((EV::Prim, false))
                }
            }
            K::Eat(k, o) => {
                self.leaf_event(n.id, pos);
                self.look(pos, *k);
                if self.input.len() - pos < *k {
                    return Err((EV::Leaf(n.id), false));
                }
                match o {
                    Out::Ok => Ok((V::Ate(*k), pos + k)),
                    Out::Miss => Err((EV::Leaf(n.id), false)),
                    Out::Fatal => Err((EV::Leaf(n.id), true)),
                }
            }
            K::Call => {
                self.leaf_event(n.id, pos);
                self.depth += 1;
                if self.depth > 40 {
                    self.over = true;
                }
                let root = self.root;
                let r = self.eval(root, pos);
                self.depth -= 1;
                r
            }
            K::Join(x, y) | K::UnifyErr(x, y) => {
                let un = matches!(n.k, K::UnifyErr(..));
                let (v0, p) = self
                    .eval(x, pos)
                    .map_err(|(e, t)| (EV::First(b(e)), t))
                    .map_err(|(e, t)| if un { (EV::F(0, b(e)), t) } else { (e, t) })?;
                let (v1, p) = self
                    .eval(y, p)
                    .map_err(|(e, t)| (EV::Last(b(e)), t))
                    .map_err(|(e, t)| if un { (EV::F(0, b(e)), t) } else { (e, t) })?;
                Ok((V::Pair(b(v0), b(v1)), p))
            }
            K::Or(x, y) | K::UnifyOr(x, y) => {
                let un = matches!(n.k, K::UnifyOr(..));
                let fin = |v: V| if un { V::F(0, b(v)) } else { v };
                let e0 = match self.eval(x, pos) {
                    Ok((v, p)) => return Ok((fin(V::First(b(v))), p)),
                    Err((e, true)) => return Err((EV::First(b(e)), true)),
                    Err((e, false)) => e,
                };
                self.recovered += 1;
                match self.eval(y, pos) {
                    Ok((v, p)) => Ok((fin(V::Last(b(v))), p)),
                    Err((e, true)) => Err((EV::Last(b(e)), true)),
                    Err((e, false)) => Err((EV::Both(b(e0), b(e)), false)),
                }
            }
            K::Opt(x) => match self.eval(x, pos) {
                Ok((v, p)) => Ok((V::Got(b(v)), p)),
                Err((e, true)) => Err((e, true)),
                Err((e, false)) => {
                    self.recovered += 1;
                    Ok((V::Absent(b(e)), pos))
                }
            },
            K::Rep(x) => {
                let mut out = Vec::new();
                let mut pos = pos;
                loop {
                    match self.eval(x, pos) {
                        Ok((v, p)) => {
                            out.push(v);
                            pos = p;
                        }
                        Err((e, true)) => return Err((e, true)),
                        Err((e, false)) => {
                            self.recovered += 1;
                            return Ok((V::Rep(out, b(e)), pos));
                        }
                    }
                }
            }
            K::Map(x) => {
                let (v, p) = self.eval(x, pos)?;
                self.call_event(n.id, &v);
                Ok((V::F(n.id, b(v)), p))
            }
            K::MapErr(x, fatal) => match self.eval(x, pos) {
                Ok(r) => Ok(r),
                Err((e, _)) => {
                    if !self.over {
                        self.call_event_e(n.id, &e);
                    }
                    Err((EV::F(n.id, b(e)), *fatal))
                }
            },
            K::AndThen(x, salt, fatal) => {
                let (v, p) = self
                    .eval(x, pos)
                    .map_err(|(e, t)| (EV::From(b(e)), t))?;
                self.call_event(n.id, &v);
                match decide(*salt, &v, *fatal) {
                    Out::Ok => Ok((V::F(n.id, b(v)), p)),
                    o => Err((EV::Rejected(n.id, b(v)), o == Out::Fatal)),
                }
            }
            K::Ref(x) | K::Boxed(x) => self.eval(x, pos),
            K::Bin(t, o, salt) => self.bin(t, o, *salt, pos),
            K::Iter(src, x, stages, sink) => iter::reference(self, n.id, *src, x, stages, *sink, pos),
        }
    }

    fn bin(&mut self, t: &Node, o: &Node, salt: u64, pos: usize) -> RefRes {
        let (first, mut pos) = self.eval(t, pos).map_err(|(e, t)| (EV::Last(b(e)), t))?;
        let mut terms = vec![first];
        let mut ops: Vec<(V, usize, bool)> = Vec::new();
        let reason = loop {
            let (op, p) = match self.eval(o, pos) {
                Ok(r) => r,
                Err((e, true)) => return Err((EV::First(b(e)), true)),
                Err((e, false)) => break EV::First(b(e)),
            };
            let (term, p) = match self.eval(t, p) {
                Ok(r) => r,
                Err((e, true)) => return Err((EV::Last(b(e)), true)),
                Err((e, false)) => break EV::Last(b(e)),
            };
            let (prec, right) = op_attrs(salt, &op);
            ops.push((op, prec, right));
            terms.push(term);
            pos = p;
        };
        self.recovered += 1;
        let v = group(terms.into_iter().map(|v| V::Term(b(v))).collect(), ops);
        Ok((V::Chain(b(v), b(reason)), pos))
    }
}

/// textbook precedence climbing over a finished chain
pub fn group(terms: Vec<V>, ops: Vec<(V, usize, bool)>) -> V {
    struct S {
        terms: std::vec::IntoIter<V>,
        ops: std::iter::Peekable<std::vec::IntoIter<(V, usize, bool)>>,
    }
    /// operators of precedence greater than (strict) or at least `min` are taken
    fn climb(s: &mut S, min: usize, strict: bool) -> V {
        let mut lhs = s.terms.next().unwrap();
        while let Some((_, p, _)) = s.ops.peek() {
            if *p < min || (strict && *p == min) {
                break;
            }
            let (op, p, right) = s.ops.next().unwrap();
            let rhs = climb(s, p, !right);
            lhs = V::Op(b(lhs), b(op), b(rhs));
        }
        lhs
    }
    let mut s = S {
        terms: terms.into_iter(),
        ops: ops.into_iter().peekable(),
    };
    climb(&mut s, 0, false)
}

// ---------------------------------------------------------------- the real thing

pub type Res<S> = ParseResult<S, Va, Er>;
pub type BoxFut<T> = Pin<Box<dyn Future<Output = T>>>;
type Fun<S> = Rc<dyn Fn(S) -> BoxFut<Res<S>>>;

pub struct Dyn<S> {
    by_ref: Fun<S>,
    by_val: Fun<S>,
}

impl<S> Clone for Dyn<S> {
    fn clone(&self) -> Self {
        Dyn {
            by_ref: Rc::clone(&self.by_ref),
            by_val: Rc::clone(&self.by_val),
        }
    }
}

impl<S: Sequence + 'static> ParserOnce<S> for Dyn<S> {
    type Output = Va;
    type Error = Er;
    fn parse_once(self, input: S) -> impl Future<Output = Res<S>> {
        (self.by_val)(input)
    }
}
impl<S: Sequence + 'static> Parser<S> for Dyn<S> {
    fn parse(&self, input: S) -> impl Future<Output = Res<S>> {
        (self.by_ref)(input)
    }
}

impl<S: Sequence + 'static> Dyn<S> {
    fn both(mode: Mode, r: Fun<S>, o: Fun<S>) -> Dyn<S> {
        match mode {
            Mode::Ref => Dyn {
                by_ref: Rc::clone(&r),
                by_val: r,
            },
            Mode::Once => Dyn {
                by_ref: Rc::clone(&o),
                by_val: o,
            },
            Mode::Inherit => Dyn {
                by_ref: r,
                by_val: o,
            },
        }
    }
    fn leaf<Fut: Future<Output = Res<S>> + 'static>(f: impl Fn(S) -> Fut + 'static) -> Dyn<S> {
        let f: Fun<S> = Rc::new(move |s| Box::pin(f(s)));
        Dyn {
            by_ref: Rc::clone(&f),
            by_val: f,
        }
    }
    /// `make` gives a fresh real parser; `conv` erases its output and error
    pub fn from_parser<P, M, C>(mode: Mode, make: M, conv: C) -> Dyn<S>
    where
        P: Parser<S> + 'static,
        M: Fn() -> P + 'static,
        C: Fn(ParserResult<S, P>) -> Res<S> + Copy + 'static,
    {
        let make = Rc::new(make);
        let shared = Rc::new(make());
        let r: Fun<S> = Rc::new(move |s| {
            let p = Rc::clone(&shared);
            Box::pin(async move { conv(p.parse(s).await) })
        });
        let o: Fun<S> = Rc::new(move |s| {
            let p = make();
            Box::pin(async move { conv(p.parse_once(s).await) })
        });
        Dyn::both(mode, r, o)
    }
}

fn wrap_e(e: Er, f: impl FnOnce(EV) -> EV, term: bool) -> Er {
    Er {
        e: f(e.e),
        term,
        t: e.t,
    }
}

/// erase Either<Er, Er>
pub fn either_err(e: Either<Er, Er>) -> Er {
    let term = e.should_terminate();
    match e {
        Either::First(e) => wrap_e(e, |e| EV::First(b(e)), term),
        Either::Last(e) => wrap_e(e, |e| EV::Last(b(e)), term),
    }
}

fn both_err(e: EitherBoth<Er, Er>) -> Er {
    let term = e.should_terminate();
    match e {
        EitherBoth::First(e) => wrap_e(e, |e| EV::First(b(e)), term),
        EitherBoth::Last(e) => wrap_e(e, |e| EV::Last(b(e)), term),
        EitherBoth::Both(x, y) => Er {
            e: EV::Both(b(x.e), b(y.e)),
            term,
            t: cat(x.t, y.t),
        },
    }
}

// distinct types per side, so that unification is seen to convert the right one
struct L(Va);
struct R(Va);
impl From<L> for Va {
    fn from(v: L) -> Va {
        v.0.wrap(|v| V::F(0, b(V::First(b(v)))))
    }
}
impl From<R> for Va {
    fn from(v: R) -> Va {
        v.0.wrap(|v| V::F(0, b(V::Last(b(v)))))
    }
}
struct EL(Er);
struct ER(Er);
impl From<EL> for Er {
    fn from(v: EL) -> Er {
        let t = v.0.term;
        wrap_e(v.0, |e| EV::F(0, b(EV::First(b(e)))), t)
    }
}
impl From<ER> for Er {
    fn from(v: ER) -> Er {
        let t = v.0.term;
        wrap_e(v.0, |e| EV::F(0, b(EV::Last(b(e)))), t)
    }
}
impl ParseError for EL {
    fn should_terminate(&self) -> bool {
        self.0.term
    }
}
impl ParseError for ER {
    fn should_terminate(&self) -> bool {
        self.0.term
    }
}

pub struct OpV {
    v: Va,
    prec: usize,
    right: bool,
}
impl Operator for OpV {
    fn precedence(&self) -> usize {
        self.prec
    }
    fn associativity(&self) -> Associativity {
        if self.right {
            Associativity::Right
        } else {
            Associativity::Left
        }
    }
}
pub struct Expr(Va);
impl From<Va> for Expr {
    fn from(v: Va) -> Expr {
        Expr(v.wrap(|v| V::Term(b(v))))
    }
}
impl From<(Expr, OpV, Expr)> for Expr {
    fn from((l, o, r): (Expr, OpV, Expr)) -> Expr {
        Expr(Va {
            v: V::Op(b(l.0.v), b(o.v.v), b(r.0.v)),
            t: cat(cat(l.0.t, o.v.t), r.0.t),
        })
    }
}

/// inputs the grammars can run on
pub trait Input: RewindSequence + Sized + 'static {
    fn left(&self) -> u64;
    fn width(c: char) -> usize;
    fn lit(p: &[char], k: usize) -> Dyn<Self>;
    fn the(c: char) -> Dyn<Self>;
    fn any() -> Dyn<Self>;
}

fn prim<S: Sequence, O>(
    r: ParseResult<S, O, parcom_util::error::Miss<()>>,
    f: impl FnOnce(O) -> V,
) -> Res<S> {
    match r {
        Ok((o, r)) => Ok((Va::new(f(o)), r)),
        Err((e, r)) => Err((Er::new(EV::Prim, e.should_terminate()), r)),
    }
}

macro_rules! text_input {
    () => {
        fn width(c: char) -> usize {
            c.len_utf8()
        }
        fn lit(p: &[char], k: usize) -> Dyn<Self> {
            let s: String = p.iter().collect();
            if k % 2 == 0 {
                Dyn::from_parser(Mode::Inherit, move || atom(s.clone()), |r| {
                    prim(r, |()| V::Unit)
                })
            } else {
                // borrowed pattern
                let st: Rc<String> = Rc::new(s);
                Dyn::leaf(move |i| {
                    let st = Rc::clone(&st);
                    async move { prim(atom(st.as_str()).parse(i).await, |()| V::Unit) }
                })
            }
        }
        fn the(c: char) -> Dyn<Self> {
            Dyn::from_parser(Mode::Inherit, move || the_char(c), |r| prim(r, |()| V::Unit))
        }
        fn any() -> Dyn<Self> {
            Dyn::from_parser(Mode::Inherit, any_char, |r| prim(r, V::Ch))
        }
    };
}

macro_rules! items_input {
    () => {
        fn width(_: char) -> usize {
            1
        }
        fn lit(p: &[char], k: usize) -> Dyn<Self> {
            let s: Vec<char> = p.to_vec();
            match (k % 3, s.as_slice()) {
                (1, [x]) => {
                    let a = [*x];
                    Dyn::from_parser(Mode::Inherit, move || atom(a), |r| prim(r, |()| V::Unit))
                }
                (2, _) => {
                    let st = Rc::new(s);
                    Dyn::leaf(move |i| {
                        let st = Rc::clone(&st);
                        async move { prim(atom(st.as_slice()).parse(i).await, |()| V::Unit) }
                    })
                }
                _ => Dyn::from_parser(Mode::Inherit, move || atom(s.clone()), |r| {
                    prim(r, |()| V::Unit)
                }),
            }
        }
        fn the(c: char) -> Dyn<Self> {
            Dyn::from_parser(Mode::Inherit, move || the_item(c), |r| prim(r, |()| V::Unit))
        }
        fn any() -> Dyn<Self> {
            Dyn::from_parser(Mode::Inherit, any_item::<char, Self>, |r| prim(r, V::Ch))
        }
    };
}

impl Input for TSeq<Text> {
    fn left(&self) -> u64 {
        self.remaining() as u64
    }
    text_input!();
}
impl Input for TSeq<Items> {
    fn left(&self) -> u64 {
        self.remaining() as u64
    }
    items_input!();
}
/// the parsers hold items of their own
impl Input for TSeq<Owned> {
    fn left(&self) -> u64 {
        self.remaining() as u64
    }
    fn width(_: char) -> usize {
        1
    }
    fn lit(p: &[char], k: usize) -> Dyn<Self> {
        let s: Vec<char> = p.to_vec();
        let own = move || s.iter().map(|c| Own::new(*c)).collect::<Vec<Own>>();
        match k % 2 {
            0 => Dyn::from_parser(Mode::Inherit, move || atom(own()), |r| prim(r, |()| V::Unit)),
            _ => {
                let st = Rc::new(own());
                Dyn::leaf(move |i| {
                    let st = Rc::clone(&st);
                    async move { prim(atom(st.as_slice()).parse(i).await, |()| V::Unit) }
                })
            }
        }
    }
    fn the(c: char) -> Dyn<Self> {
        Dyn::from_parser(Mode::Inherit, move || the_item(Own::new(c)), |r| prim(r, |()| V::Unit))
    }
    fn any() -> Dyn<Self> {
        Dyn::from_parser(Mode::Inherit, any_item::<Own, Self>, |r| prim(r, |x: Own| V::Ch(x.0)))
    }
}
impl Input for &'static str {
    fn left(&self) -> u64 {
        self.len() as u64
    }
    text_input!();
}
impl Input for &'static [char] {
    fn left(&self) -> u64 {
        self.len() as u64
    }
    items_input!();
}

/// meter that remembers what it consumed
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Seen {
    pub total: usize,
    pub text: Vec<char>,
    pub units: usize,
}
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct SeenMetrics(pub Seen);
impl Meter<str> for Seen {
    type Metrics = SeenMetrics;
    fn advance(mut self, s: &str) -> Self {
        self.text.extend(s.chars());
        self.units += s.len();
        self
    }
    fn metrics(&self) -> SeenMetrics {
        SeenMetrics(self.clone())
    }
}
impl Metrics<str> for SeenMetrics {
    type Meter = Seen;
}
#[derive(Clone, Debug)]
pub struct SeenI(pub Seen);
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct SeenIMetrics(pub Seen);
impl Meter<[char]> for SeenI {
    type Metrics = SeenIMetrics;
    fn advance(mut self, s: &[char]) -> Self {
        self.0.text.extend(s);
        self.0.units += s.measure();
        self
    }
    fn metrics(&self) -> SeenIMetrics {
        SeenIMetrics(self.0.clone())
    }
}
impl Metrics<[char]> for SeenIMetrics {
    type Meter = SeenI;
}
pub type MStr = parcom_core::primitive::str::Measured<'static, SeenMetrics>;
pub type MItems = parcom_core::primitive::slice::Measured<'static, char, SeenIMetrics>;
impl Input for MStr {
    fn left(&self) -> u64 {
        let m = self.metrics().0;
        (m.total - m.units) as u64
    }
    text_input!();
}
impl Input for MItems {
    fn left(&self) -> u64 {
        let m = self.metrics().0;
        (m.total - m.units) as u64
    }
    items_input!();
}

type RootCell<S> = RefCell<Option<Dyn<S>>>;

/// a grammar built on the real combinators
pub struct Built<S> {
    pub root: Dyn<S>,
    _cell: Rc<RootCell<S>>,
}

pub fn build<S: Input>(n: &Node) -> Built<S> {
    let cell: Rc<RootCell<S>> = Rc::new(RefCell::new(None));
    let root = build_in(n, &Rc::downgrade(&cell));
    *cell.borrow_mut() = Some(root.clone());
    Built { root, _cell: cell }
}

impl<S> Drop for Built<S> {
    fn drop(&mut self) {
        *self._cell.borrow_mut() = None;
    }
}

/// log the invocation of a leaf
fn logged<S: Input>(id: u32, d: Dyn<S>) -> Dyn<S> {
    let (r, o) = (d.by_ref, d.by_val);
    let f = |id: u32, g: Fun<S>| -> Fun<S> {
        Rc::new(move |s: S| {
            let g = Rc::clone(&g);
            Box::pin(async move {
                event(id, s.left());
                g(s).await
            })
        })
    };
    Dyn {
        by_ref: f(id, r),
        by_val: f(id, o),
    }
}

async fn eat<S: Input>(any: Dyn<S>, id: u32, n: usize, o: Out, mut s: S) -> Res<S> {
    for _ in 0..n {
        match any.parse(s).await {
            Ok((_, r)) => s = r,
            Err((_, r)) => return Err((Er::new(EV::Leaf(id), false), r)),
        }
    }
    match o {
        Out::Ok => Ok((Va::new(V::Ate(n)), s)),
        Out::Miss => Err((Er::new(EV::Leaf(id), false), UnknownLocation::from(s))),
        Out::Fatal => Err((Er::new(EV::Leaf(id), true), UnknownLocation::from(s))),
    }
}

fn build_in<S: Input>(n: &Node, cell: &Weak<RootCell<S>>) -> Dyn<S> {
    let id = n.id;
    let mode = n.mode;
    match &n.k {
        K::Lit(p) => logged(id, S::lit(p, id as usize)),
        K::Any => logged(id, S::any()),
        K::The(c) => logged(id, S::the(*c)),
        K::Eat(k, o) => {
            let (k, o) = (*k, *o);
            let any = S::any();
            // a closure used as a parser
            let make = move || {
                let any = any.clone();
                move |s: S| {
                    let any = any.clone();
                    async move {
                        event(id, s.left());
                        eat(any, id, k, o, s).await
                    }
                }
            };
            Dyn::from_parser(mode, make, |r| r)
        }
        K::Call => {
            let cell = Weak::clone(cell);
            Dyn::leaf(move |s: S| {
                let cell = Weak::clone(&cell);
                async move {
                    event(id, s.left());
                    let c = cell.upgrade().expect("grammar is alive");
                    let d = c.borrow().clone().expect("grammar is alive");
                    d.parse(s).await
                }
            })
        }
        K::Join(x, y) => {
            let (x, y) = (build_in(x, cell), build_in(y, cell));
            Dyn::from_parser(
                mode,
                move || x.clone().join(y.clone()),
                |r| match r {
                    Ok(((v, w), r)) => Ok((
                        Va {
                            v: V::Pair(b(v.v), b(w.v)),
                            t: cat(v.t, w.t),
                        },
                        r,
                    )),
                    Err((e, r)) => Err((either_err(e), r)),
                },
            )
        }
        K::UnifyErr(x, y) => {
            let (x, y) = (build_in(x, cell), build_in(y, cell));
            Dyn::from_parser(
                mode,
                move || {
                    let j = x.clone().join(y.clone()).map_err(|e| match e {
                        Either::First(e) => Either::First(EL(e)),
                        Either::Last(e) => Either::Last(ER(e)),
                    });
                    ParserExtension::<S>::unify_err::<EL, ER, Er>(j)
                },
                |r| match r {
                    Ok(((v, w), r)) => Ok((
                        Va {
                            v: V::Pair(b(v.v), b(w.v)),
                            t: cat(v.t, w.t),
                        },
                        r,
                    )),
                    Err((e, r)) => Err((e, r)),
                },
            )
        }
        K::Or(x, y) => {
            let (x, y) = (build_in(x, cell), build_in(y, cell));
            Dyn::from_parser(
                mode,
                move || x.clone().or(y.clone()),
                |r| match r {
                    Ok((Either::First(v), r)) => Ok((v.wrap(|v| V::First(b(v))), r)),
                    Ok((Either::Last(v), r)) => Ok((v.wrap(|v| V::Last(b(v))), r)),
                    Err((e, r)) => Err((both_err(e), r)),
                },
            )
        }
        K::UnifyOr(x, y) => {
            let (x, y) = (build_in(x, cell), build_in(y, cell));
            Dyn::from_parser(
                mode,
                move || {
                    let p = x.clone().or(y.clone()).map(|e| match e {
                        Either::First(v) => Either::First(L(v)),
                        Either::Last(v) => Either::Last(R(v)),
                    });
                    ParserExtension::<S>::unify::<L, R, Va>(p)
                },
                |r| match r {
                    Ok((v, r)) => Ok((v, r)),
                    Err((e, r)) => Err((both_err(e), r)),
                },
            )
        }
        K::Opt(x) => {
            let x = build_in(x, cell);
            Dyn::from_parser(
                mode,
                move || x.clone().optional(),
                |r| match r {
                    Ok((Ok(v), r)) => Ok((v.wrap(|v| V::Got(b(v))), r)),
                    Ok((Err(e), r)) => Ok((
                        Va {
                            v: V::Absent(b(e.e)),
                            t: e.t,
                        },
                        r,
                    )),
                    Err((e, r)) => Err((e, r)),
                },
            )
        }
        K::Rep(x) => {
            let x = build_in(x, cell);
            Dyn::from_parser(
                mode,
                move || x.clone().repeat(),
                |r| match r {
                    Ok(((vs, e), r)) => {
                        let mut t = e.t;
                        let mut out = Vec::new();
                        for v in vs {
                            out.push(v.v);
                            t.extend(v.t);
                        }
                        Ok((
                            Va {
                                v: V::Rep(out, b(e.e)),
                                t,
                            },
                            r,
                        ))
                    }
                    Err((e, r)) => Err((e, r)),
                },
            )
        }
        K::Map(x) => {
            let x = build_in(x, cell);
            Dyn::from_parser(
                mode,
                move || {
                    x.clone().map(move |v: Va| {
                        event(id, hash_of(&v.v, 0));
                        v.wrap(|v| V::F(id, b(v)))
                    })
                },
                |r| r,
            )
        }
        K::MapErr(x, fatal) => {
            let x = build_in(x, cell);
            let fatal = *fatal;
            Dyn::from_parser(
                mode,
                move || {
                    x.clone().map_err(move |e: Er| {
                        event(id, hash_of(&e.e, 1));
                        wrap_e(e, |e| EV::F(id, b(e)), fatal)
                    })
                },
                |r| r,
            )
        }
        K::AndThen(x, salt, fatal) => {
            let x = build_in(x, cell);
            let (salt, fatal) = (*salt, *fatal);
            Dyn::from_parser(
                mode,
                move || {
                    x.clone().and_then(move |v: Va| {
                        event(id, hash_of(&v.v, 0));
                        match decide(salt, &v.v, fatal) {
                            Out::Ok => Ok(v.wrap(|v| V::F(id, b(v)))),
                            o => Err(Er2(Er {
                                e: EV::Rejected(id, b(v.v)),
                                term: o == Out::Fatal,
                                t: v.t,
                            })),
                        }
                    })
                },
                |r| r.map_err(|(e, r)| (e.0, r)),
            )
        }
        K::Ref(x) => {
            let x = build_in(x, cell);
            let y = x.clone();
            let r: Fun<S> = Rc::new(move |s| {
                let x = x.clone();
                Box::pin(async move {
                    let r = ParserExtension::as_ref(&x);
                    r.parse(s).await
                })
            });
            let o: Fun<S> = Rc::new(move |s| {
                let x = y.clone();
                Box::pin(async move {
                    let r = ParserExtension::as_ref(&x);
                    r.parse_once(s).await
                })
            });
            Dyn::both(mode, r, o)
        }
        K::Boxed(x) => {
            let x = build_in(x, cell);
            Dyn::from_parser(mode, move || x.clone().boxed(), |r| r)
        }
        K::Bin(t, o, salt) => {
            let (t, o) = (build_in(t, cell), build_in(o, cell));
            let salt = *salt;
            Dyn::from_parser(
                mode,
                move || {
                    let o = o.clone();
                    let op = move |s: S| {
                        let o = o.clone();
                        async move {
                            match o.parse(s).await {
                                Ok((v, r)) => {
                                    let (prec, right) = op_attrs(salt, &v.v);
                                    Ok((OpV { v, prec, right }, r))
                                }
                                Err((e, r)) => Err((e, r)),
                            }
                        }
                    };
                    BinExprParser::<S, _, _, Expr>::new(t.clone(), op)
                },
                |r| match r {
                    Ok(((x, reason), r)) => {
                        let e = either_err(reason);
                        Ok((
                            Va {
                                v: V::Chain(b(x.0.v), b(e.e)),
                                t: cat(x.0.t, e.t),
                            },
                            r,
                        ))
                    }
                    Err((e, r)) => Err((either_err(e), r)),
                },
            )
        }
        K::Iter(src, x, stages, sink) => {
            let x = build_in(x, cell);
            iter::build(id, mode, *src, x, stages, *sink)
        }
    }
}

// ---------------------------------------------------------------- observation

/// what a parse was seen to do
#[derive(Debug, Clone, PartialEq)]
pub enum Seeing {
    Ok(V, u64),
    Err(EV, bool),
}

impl Seeing {
    pub fn of_ref(r: &Reference<'_>, res: RefRes) -> Seeing {
        match res {
            Ok((v, p)) => Seeing::Ok(v, r.left[p]),
            Err((e, t)) => Seeing::Err(e, t),
        }
    }
    pub fn of<S: Input>(res: &Res<S>) -> Seeing {
        match res {
            Ok((v, r)) => Seeing::Ok(v.v.clone(), r.left()),
            Err((e, _)) => Seeing::Err(e.e.clone(), e.should_terminate()),
        }
    }
}

pub fn show_input(c: &[char]) -> String {
    format!("{:?}", c.iter().collect::<String>())
}

pub fn bytes_delta(n: usize) -> BytesDelta {
    BytesDelta::from_bytes(n)
}
