//! Instrumented rewindable sequence: scripted segment cuts (also empty segments), scripted
//! suspensions, and monitors for misuse by parsers.
use crate::driver::BudgetExceeded;
use crate::exec::defer_wake;
use crate::grammar::event;
use crate::ledger::Tok;
use crate::rng::mix;
use parcom_core::primitive::BytesDelta;
use parcom_core::{RewindSequence, SegmentStream, Sequence, SequenceSegment};
use std::cell::{Cell, RefCell};
use std::future::Future;
use std::marker::PhantomData;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll};

pub trait Kind: 'static + Sized {
    type Data: 'static;
    type Seg: ?Sized + 'static + SequenceSegment<Length = Self::Len>;
    type Len: 'static + Copy;
    fn data(chars: &[char]) -> Self::Data;
    fn total(d: &Self::Data) -> usize;
    fn slice(d: &Self::Data, a: usize, b: usize) -> &Self::Seg;
    fn units(l: Self::Len) -> usize;
    fn boundary(d: &Self::Data, at: usize) -> bool;
    fn width(c: char) -> usize;
    /// tracked values a document of `n` characters holds
    fn tracked(_n: usize) -> i64 {
        0
    }
}

pub struct Text;
impl Kind for Text {
    type Data = String;
    type Seg = str;
    type Len = BytesDelta;
    fn data(chars: &[char]) -> String {
        chars.iter().collect()
    }
    fn total(d: &String) -> usize {
        d.len()
    }
    fn slice(d: &String, a: usize, b: usize) -> &str {
        &d[a..b]
    }
    fn units(l: BytesDelta) -> usize {
        l.to_bytes()
    }
    fn boundary(d: &String, at: usize) -> bool {
        d.is_char_boundary(at)
    }
    fn width(c: char) -> usize {
        c.len_utf8()
    }
}

pub struct Items;
impl Kind for Items {
    type Data = Vec<char>;
    type Seg = [char];
    type Len = usize;
    fn data(chars: &[char]) -> Vec<char> {
        chars.to_vec()
    }
    fn total(d: &Vec<char>) -> usize {
        d.len()
    }
    fn slice(d: &Vec<char>, a: usize, b: usize) -> &[char] {
        &d[a..b]
    }
    fn units(l: usize) -> usize {
        l
    }
    fn boundary(_: &Vec<char>, _: usize) -> bool {
        true
    }
    fn width(_: char) -> usize {
        1
    }
}

/// an item that is tracked by the ledger and may panic where it is cloned or compared
#[derive(Debug)]
pub struct Own(pub char, pub Tok);
impl Own {
    pub fn new(c: char) -> Own {
        Own(c, Tok::new())
    }
}
impl Clone for Own {
    fn clone(&self) -> Own {
        event(u32::MAX, 0);
        Own::new(self.0)
    }
}
impl PartialEq for Own {
    fn eq(&self, o: &Own) -> bool {
        event(u32::MAX, 1);
        self.0 == o.0
    }
}
pub struct Owned;
impl Kind for Owned {
    type Data = Vec<Own>;
    type Seg = [Own];
    type Len = usize;
    fn data(chars: &[char]) -> Vec<Own> {
        chars.iter().map(|c| Own::new(*c)).collect()
    }
    fn total(d: &Vec<Own>) -> usize {
        d.len()
    }
    fn slice(d: &Vec<Own>, a: usize, b: usize) -> &[Own] {
        &d[a..b]
    }
    fn units(l: usize) -> usize {
        l
    }
    fn boundary(_: &Vec<Own>, _: usize) -> bool {
        true
    }
    fn width(_: char) -> usize {
        1
    }
    fn tracked(n: usize) -> i64 {
        n as i64
    }
}

pub struct Doc<K: Kind> {
    data: K::Data,
    total: usize,
    cuts: Vec<usize>,
    rng: Cell<u64>,
    /// probability of a suspension, out of 256
    pend: u8,
    ops: Cell<u64>,
    limit: Cell<u64>,
    pub suspensions: Cell<u64>,
    pub segments: Cell<u64>,
    /// units that have arrived while more may follow
    arrived: Cell<Option<usize>>,
    /// operations that wait for more than has arrived
    pub waiting: Cell<u64>,
    /// misuse observed, e.g. advancing into the middle of a character
    pub misuse: RefCell<Vec<String>>,
}

impl<K: Kind> Doc<K> {
    /// `cuts` are in units, ascending, repetitions give empty segments
    pub fn new(chars: &[char], cuts: Vec<usize>, pend: u8, seed: u64) -> Rc<Self> {
        let data = K::data(chars);
        let total = K::total(&data);
        Rc::new(Doc {
            data,
            total,
            cuts,
            rng: Cell::new(seed),
            pend,
            ops: Cell::new(0),
            limit: Cell::new(400_000 + 5_000 * chars.len() as u64),
            suspensions: Cell::new(0),
            segments: Cell::new(0),
            arrived: Cell::new(None),
            waiting: Cell::new(0),
            misuse: RefCell::new(Vec::new()),
        })
    }
    fn op(&self) -> u8 {
        let n = self.ops.get() + 1;
        self.ops.set(n);
        if n > self.limit.get() {
            std::panic::panic_any(BudgetExceeded("sequence operations"));
        }
        if self.pend == 0 {
            return 0;
        }
        let r = mix(self.rng.get());
        self.rng.set(r);
        if (r & 255) < self.pend as u64 {
            let n = 1 + ((r >> 8) & 1) as u8;
            self.suspensions.set(self.suspensions.get() + n as u64);
            n
        } else {
            0
        }
    }
    pub fn ops(&self) -> u64 {
        self.ops.get()
    }
    pub fn set_limit(&self, n: u64) {
        self.limit.set(n)
    }
    /// let only the first `n` units arrive; whatever needs more, or needs to know that the input
    /// has ended, waits for ever
    pub fn arrive(&self, n: usize) {
        self.arrived.set(Some(n))
    }
    fn wait(&self) -> u8 {
        self.waiting.set(self.waiting.get() + 1);
        FOREVER
    }
    pub fn check_misuse(&self) -> Result<(), crate::driver::Viol> {
        match self.misuse.borrow().first() {
            Some(m) => Err(crate::driver::Viol(m.clone())),
            None => Ok(()),
        }
    }
}

pub struct TSeq<K: Kind> {
    doc: Rc<Doc<K>>,
    pos: usize,
}

impl<K: Kind> TSeq<K> {
    pub fn new(doc: &Rc<Doc<K>>) -> Self {
        TSeq {
            doc: Rc::clone(doc),
            pos: 0,
        }
    }
    pub fn remaining(&self) -> usize {
        self.doc.total - self.pos
    }
}

pub struct TSegs<'a, K: Kind> {
    seq: &'a mut TSeq<K>,
    pos: usize,
    cut: usize,
}

const FOREVER: u8 = u8::MAX;

pub struct Later<T> {
    /// polls that find it suspended
    pend: u8,
    v: Option<T>,
}
impl<T> Unpin for Later<T> {}
impl<T> Future for Later<T> {
    type Output = T;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<T> {
        if self.pend == FOREVER {
            return Poll::Pending;
        }
        if self.pend > 0 {
            self.pend -= 1;
            defer_wake(cx.waker());
            return Poll::Pending;
        }
        Poll::Ready(self.v.take().expect("polled after completion"))
    }
}

impl<'a, K: Kind> SegmentStream for TSegs<'a, K> {
    type Length = K::Len;
    type Segment = K::Seg;
    type Next<'b>
        = Later<Option<&'b K::Seg>>
    where
        Self: 'b;

    fn next<'b>(&'b mut self, _: K::Len) -> Later<Option<&'b K::Seg>> {
        let pend = self.seq.doc.op();
        let doc = &self.seq.doc;
        if let Some(here) = doc.arrived.get() {
            let next = doc.cuts.get(self.cut).copied();
            if self.pos >= here && next != Some(here) {
                let pend = doc.wait();
                return Later { pend, v: None };
            }
            if next.is_none_or(|e| e > here) {
                let start = self.pos;
                self.pos = here;
                doc.segments.set(doc.segments.get() + 1);
                let v = Some(Some(K::slice(&doc.data, start, here)));
                return Later { pend, v };
            }
        }
        let end = if self.cut < doc.cuts.len() {
            let e = doc.cuts[self.cut];
            self.cut += 1;
            e
        } else if self.pos < doc.total {
            doc.total
        } else {
            return Later { pend, v: Some(None) };
        };
        let start = self.pos;
        self.pos = end;
        doc.segments.set(doc.segments.get() + 1);
        Later {
            pend,
            v: Some(Some(K::slice(&doc.data, start, end))),
        }
    }
}

impl<K: Kind> Sequence for TSeq<K> {
    type Length = K::Len;
    type Segment = K::Seg;
    type Segments<'a>
        = TSegs<'a, K>
    where
        Self: 'a;
    type Advance = Later<Self>;

    fn segments(&mut self) -> TSegs<'_, K> {
        let pos = self.pos;
        let cut = self.doc.cuts.partition_point(|c| *c < pos);
        TSegs { seq: self, pos, cut }
    }
    fn advance(mut self, delta: K::Len) -> Later<Self> {
        let pend = self.doc.op();
        let to = self.pos.saturating_add(K::units(delta));
        if to > self.doc.total || !K::boundary(&self.doc.data, to) {
            self.doc.misuse.borrow_mut().push(format!(
                "a parser advanced from {} by {} on an input of {} units (past the end or into a character)",
                self.pos,
                K::units(delta),
                self.doc.total
            ));
        }
        let pend = match self.doc.arrived.get() {
            Some(here) if to > here => self.doc.wait(),
            _ => pend,
        };
        self.pos = to.min(self.doc.total);
        while !K::boundary(&self.doc.data, self.pos) {
            self.pos += 1;
        }
        Later {
            pend,
            v: Some(self),
        }
    }
}

pub struct TAnchor<K: Kind> {
    pos: usize,
    _p: PhantomData<K>,
}

impl<K: Kind> RewindSequence for TSeq<K> {
    type Anchor = TAnchor<K>;
    type Rewind = Later<Self>;
    fn anchor(&self) -> TAnchor<K> {
        TAnchor {
            pos: self.pos,
            _p: PhantomData,
        }
    }
    fn rewind(mut self, anchor: TAnchor<K>) -> Later<Self> {
        let pend = self.doc.op();
        if anchor.pos > self.pos {
            self.doc.misuse.borrow_mut().push(format!(
                "rewound forward from {} to an anchor at {}",
                self.pos, anchor.pos
            ));
        }
        self.pos = anchor.pos;
        Later {
            pend,
            v: Some(self),
        }
    }
}
