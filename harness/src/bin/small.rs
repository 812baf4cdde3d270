//! C09, C10: the small vector against a list model, with an allocation log and a release ledger.
use parcom_internals::ShortVec;
use parcom_verif::driver::{guarded, Args, Case, Caught, Injected, Report, Stats, Viol};
use parcom_verif::ensure;
use parcom_verif::ledger::{self, Tok};
use parcom_verif::rng::Rng;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};

// ---- allocation log -------------------------------------------------------------------------
thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static LIVE: RefCell<Vec<(usize, Layout)>> = const { RefCell::new(Vec::new()) };
    static CALLS: Cell<u64> = const { Cell::new(0) };
    static WRONG: RefCell<Option<String>> = const { RefCell::new(None) };
}

struct Logging;

fn quiet<R>(f: impl FnOnce() -> R) -> R {
    ON.set(false);
    let r = f();
    ON.set(true);
    r
}

impl Logging {
    fn acquired(p: *mut u8, l: Layout) {
        CALLS.set(CALLS.get() + 1);
        quiet(|| LIVE.with(|v| v.borrow_mut().push((p as usize, l))));
    }
    fn wrong(s: String) {
        WRONG.with(|w| {
            w.borrow_mut().get_or_insert(s);
        });
    }
    /// the layout `p` was obtained with, if the log knows it
    fn released(p: *mut u8, l: Layout) {
        quiet(|| {
            let old = LIVE.with(|v| {
                let mut v = v.borrow_mut();
                let i = v.iter().rposition(|e| e.0 == p as usize)?;
                Some(v.swap_remove(i).1)
            });
            if let Some(old) = old {
                if old != l {
                    Self::wrong(format!("memory obtained with {old:?} released with {l:?}"));
                }
            }
        })
    }
}

unsafe impl GlobalAlloc for Logging {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if ON.get() && l.size() == 0 {
            quiet(|| Self::wrong(format!("allocation of zero bytes, {l:?}")));
            return l.align() as *mut u8;
        }
        let p = System.alloc(l);
        if ON.get() && !p.is_null() {
            Self::acquired(p, l);
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if ON.get() {
            if l.size() == 0 {
                quiet(|| Self::wrong(format!("release of zero bytes, {l:?}")));
                return;
            }
            Self::released(p, l);
        }
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        if ON.get() {
            if l.size() == 0 || new == 0 {
                quiet(|| Self::wrong(format!("reallocation from {l:?} to {new} bytes")));
            }
            Self::released(p, l);
        }
        let q = System.realloc(p, l, new);
        if ON.get() && !q.is_null() {
            Self::acquired(q, Layout::from_size_align_unchecked(new, l.align()));
        }
        q
    }
}

#[global_allocator]
static A: Logging = Logging;

/// run an operation of the vector with the allocation log on
fn logged<R>(f: impl FnOnce() -> R) -> R {
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            ON.set(false)
        }
    }
    ON.set(true);
    let _off = Off;
    f()
}

// ---- element types ---------------------------------------------------------------------------
trait Elem: 'static {
    const NAME: &'static str;
    /// whether `val` gives back what `make` was given
    const VALUED: bool = true;
    fn make(v: u64) -> Self;
    fn val(&self) -> u64;
    fn set(&mut self, v: u64);
}

macro_rules! plain {
    ($($t:ty),*) => {$(
        impl Elem for $t {
            const NAME: &'static str = stringify!($t);
            fn make(v: u64) -> Self { (v % 251) as $t }
            fn val(&self) -> u64 { *self as u64 }
            fn set(&mut self, v: u64) { *self = (v % 251) as $t }
        }
    )*};
}
plain!(u8, u16, u64, u128);

impl Elem for [u64; 5] {
    const NAME: &'static str = "[u64; 5]";
    fn make(v: u64) -> Self {
        [v % 251; 5]
    }
    fn val(&self) -> u64 {
        assert!(self.iter().all(|x| x == &self[0]), "torn element {self:?}");
        self[0]
    }
    fn set(&mut self, v: u64) {
        *self = [v % 251; 5]
    }
}

impl Elem for String {
    const NAME: &'static str = "String";
    fn make(v: u64) -> Self {
        (v % 251).to_string()
    }
    fn val(&self) -> u64 {
        self.parse().unwrap()
    }
    fn set(&mut self, v: u64) {
        *self = (v % 251).to_string()
    }
}

/// tracked element of ordinary size
struct Tracked(Tok, Box<u64>);
impl Elem for Tracked {
    const NAME: &'static str = "tracked box";
    fn make(v: u64) -> Self {
        Tracked(Tok::new(), Box::new(v % 251))
    }
    fn val(&self) -> u64 {
        *self.1
    }
    fn set(&mut self, v: u64) {
        *self.1 = v % 251
    }
}

/// tracked over-aligned element
#[repr(align(64))]
struct Wide(Tok, u8);
impl Elem for Wide {
    const NAME: &'static str = "tracked align(64)";
    fn make(v: u64) -> Self {
        Wide(Tok::new(), (v % 251) as u8)
    }
    fn val(&self) -> u64 {
        assert!(self as *const _ as usize % 64 == 0, "misaligned element");
        self.1 as u64
    }
    fn set(&mut self, v: u64) {
        self.1 = (v % 251) as u8
    }
}

/// tracked large element
struct Big(Tok, [u16; 50]);
impl Elem for Big {
    const NAME: &'static str = "tracked 100 bytes";
    fn make(v: u64) -> Self {
        Big(Tok::new(), [(v % 251) as u16; 50])
    }
    fn val(&self) -> u64 {
        assert!(self.1.iter().all(|b| *b == self.1[0]), "torn element");
        self.1[0] as u64
    }
    fn set(&mut self, v: u64) {
        self.1 = [(v % 251) as u16; 50]
    }
}

thread_local! {
    static ZST: Cell<(u64, u64)> = const { Cell::new((0, 0)) };
}
fn zst_made() {
    let (a, b) = ZST.get();
    ZST.set((a + 1, b));
}
fn zst_dropped() {
    let (a, b) = ZST.get();
    ZST.set((a, b + 1));
}
/// counted zero-sized element
struct Zst;
impl Drop for Zst {
    fn drop(&mut self) {
        zst_dropped()
    }
}
impl Elem for Zst {
    const NAME: &'static str = "zero-sized";
    const VALUED: bool = false;
    fn make(_: u64) -> Self {
        zst_made();
        Zst
    }
    fn val(&self) -> u64 {
        0
    }
    fn set(&mut self, _: u64) {}
}
/// counted zero-sized over-aligned element
#[repr(align(32))]
struct ZstWide;
impl Drop for ZstWide {
    fn drop(&mut self) {
        zst_dropped()
    }
}
impl Elem for ZstWide {
    const NAME: &'static str = "zero-sized align(32)";
    const VALUED: bool = false;
    fn make(_: u64) -> Self {
        zst_made();
        ZstWide
    }
    fn val(&self) -> u64 {
        assert!(self as *const _ as usize % 32 == 0, "misaligned element");
        0
    }
    fn set(&mut self, _: u64) {}
}

// ---- histories -------------------------------------------------------------------------------
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
enum Op {
    Push,
    Bulk(usize),
    Pop,
    Drain(usize),
    Modify,
    Swap,
    Reserve(usize),
    ReserveExact(usize),
    Huge,
    MoveVec,
}

fn op(rng: &mut Rng, n: usize, len: usize, mini: bool) -> Op {
    let size = |rng: &mut Rng| match rng.below(6) {
        0 => n,
        1 => n + 1,
        2 => len,
        3 => len + rng.below(4),
        4 => rng.below(2 * n + 6),
        _ => rng.below(if mini { 12 } else { 70 }),
    };
    match rng.below(20) {
        0..=7 => Op::Push,
        8 if !mini && rng.chance(1, 12) => Op::Bulk(rng.range(200, 3000)),
        8 => Op::Bulk(rng.range(2, if mini { n.min(8) + 3 } else { 2 * n + 20 })),
        9..=11 => Op::Pop,
        12 => Op::Drain(rng.below(len + 3)),
        13 => Op::Modify,
        14 => Op::Swap,
        15 | 16 => Op::Reserve(size(rng)),
        17 => Op::ReserveExact(size(rng)),
        18 => Op::MoveVec,
        _ if rng.chance(1, 6) => Op::Huge,
        _ => Op::Push,
    }
}

struct Sim<T, const N: usize> {
    v: Option<ShortVec<T, N>>,
    model: Vec<u64>,
    next: u64,
    /// the most it ever had to hold or was asked to reserve
    needed: usize,
    /// reserved room and where the elements were when it was reserved
    room: Option<(usize, *const T)>,
    trail: Vec<Op>,
}

impl<T: Elem, const N: usize> Sim<T, N> {
    fn fail(&self, what: impl std::fmt::Display) -> Viol {
        Viol(format!(
            "ShortVec<{}, {N}>: {what}; operations: {:?}",
            T::NAME,
            self.trail
        ))
    }
    fn item(&mut self) -> (T, u64) {
        self.next += 1;
        let t = T::make(self.next);
        let v = t.val();
        (t, v)
    }
    fn vec(&mut self) -> &mut ShortVec<T, N> {
        self.v.as_mut().unwrap()
    }
    fn push(&mut self) -> Case {
        let (t, v) = self.item();
        logged(|| self.v.as_mut().unwrap().push(t));
        self.model.push(v);
        self.needed = self.needed.max(self.model.len());
        if self.room.is_some_and(|(room, _)| self.model.len() > room) {
            self.room = None; // used up
        }
        Ok(())
    }
    fn pop(&mut self) -> Case {
        let got = logged(|| self.v.as_mut().unwrap().pop());
        let want = self.model.pop();
        let val = got.as_ref().map(|t| t.val());
        if val != want {
            // keep `got`: it may not be a valid value
            std::mem::forget(got);
            return Err(self.fail(format!("pop gave {val:?} instead of {want:?}")));
        }
        Ok(())
    }
    fn check(&mut self, calls_before: u64) -> Case {
        let model = self.model.clone();
        let v = self.v.as_ref().unwrap();
        let s = v.as_slice();
        if s.len() != model.len() {
            return Err(self.fail(format!("length {} instead of {}", s.len(), model.len())));
        }
        let got: Vec<u64> = s.iter().map(|t| t.val()).collect();
        if got != model {
            return Err(self.fail(format!("contents {got:?} instead of {model:?}")));
        }
        if v.is_empty() != model.is_empty() {
            return Err(self.fail("is_empty is wrong"));
        }
        let (p, sp) = (v.as_ptr(), s.as_ptr());
        if std::mem::size_of::<T>() != 0 && p != sp && !model.is_empty() {
            return Err(self.fail("as_ptr is not where the elements are"));
        }
        if sp as usize % std::mem::align_of::<T>() != 0 {
            return Err(self.fail("elements are misaligned"));
        }
        let got: Vec<u64> = self.vec().as_slice_mut().iter().map(|t| t.val()).collect();
        if got != model {
            return Err(self.fail(format!("mutable contents {got:?} instead of {model:?}")));
        }
        if self.needed <= N && CALLS.get() != calls_before {
            return Err(self.fail(format!(
                "allocated although it never needed more than {} of {N} inline places",
                self.needed
            )));
        }
        if let Some((room, at)) = self.room {
            if model.is_empty() {
                // nothing there that could have moved
                self.room = Some((room, p));
            } else if std::mem::size_of::<T>() != 0 && p != at {
                return Err(self.fail(format!("elements moved although room for {room} was reserved")));
            }
        }
        self.wrong()
    }
    fn wrong(&self) -> Case {
        match WRONG.with(|w| w.borrow_mut().take()) {
            Some(w) => Err(self.fail(w)),
            None => Ok(()),
        }
    }
    fn reserved(&mut self, cap: usize) -> Case {
        self.needed = self.needed.max(cap);
        let p = self.vec().as_ptr();
        if let Some((room, at)) = self.room {
            // asking again for room it already has
            if cap <= room && !self.model.is_empty() && p != at && std::mem::size_of::<T>() != 0 {
                return Err(self.fail(format!("elements moved when asked for room {cap}, having room {room}")));
            }
        }
        let room = self.room.map_or(0, |r| r.0).max(cap);
        self.room = Some((room, p));
        Ok(())
    }
    fn apply(&mut self, o: Op, rng: &mut Rng) -> Case {
        self.trail.push(o);
        match o {
            Op::Push => self.push()?,
            Op::Bulk(n) => {
                for _ in 0..n {
                    self.push()?;
                }
            }
            Op::Pop => self.pop()?,
            Op::Drain(n) => {
                for _ in 0..n {
                    self.pop()?;
                }
            }
            Op::Modify => {
                if !self.model.is_empty() {
                    let i = rng.below(self.model.len());
                    self.next += 1;
                    let v = self.next;
                    let e = &mut self.vec().as_slice_mut()[i];
                    e.set(v);
                    self.model[i] = self.vec().as_slice()[i].val();
                    if T::VALUED && self.model[i] != v % 251 {
                        return Err(self.fail("a modification in place was lost"));
                    }
                }
            }
            Op::Swap => {
                if self.model.len() > 1 {
                    let (i, j) = (rng.below(self.model.len()), rng.below(self.model.len()));
                    self.vec().as_slice_mut().swap(i, j);
                    self.model.swap(i, j);
                }
            }
            Op::Reserve(n) => {
                logged(|| self.v.as_mut().unwrap().reserve(n));
                self.reserved(n)?;
            }
            Op::ReserveExact(n) => {
                logged(|| self.v.as_mut().unwrap().reserve_exact(n));
                self.reserved(n)?;
            }
            Op::Huge => {
                // refused with a panic, nothing else happens
                if std::mem::size_of::<T>() != 0 {
                    let exact = rng.chance(1, 2);
                    let v = self.v.as_mut().unwrap();
                    let r = guarded(|| {
                        if exact {
                            v.reserve_exact(usize::MAX)
                        } else {
                            v.reserve(usize::MAX)
                        }
                    });
                    match r {
                        Err(Caught::Code(_)) => {}
                        Ok(()) => return Err(self.fail("room for usize::MAX elements was granted")),
                        _ => return Err(self.fail("unexpected panic")),
                    }
                    // the allocations of the panic itself do not count
                    return Ok(());
                }
                // room for zero-sized elements takes no memory; only the limit of lengths applies
                let most = isize::MAX as usize;
                let n = match rng.below(3) {
                    0 => most - rng.below(3),
                    1 => most / 2 + rng.below(4),
                    _ => most / 2 + rng.below(most / 2),
                };
                let exact = rng.chance(1, 2);
                let v = self.v.as_mut().unwrap();
                let r = guarded(|| logged(|| if exact { v.reserve_exact(n) } else { v.reserve(n) }));
                if let Err(Caught::Code(m)) = r {
                    return Err(self.fail(format!("no room for {n} zero-sized elements: {m}")));
                }
                self.reserved(n)?;
            }
            Op::MoveVec => {
                let v = self.v.take().unwrap();
                let b = Box::new(v);
                self.v = Some(*b);
                self.room = None;
            }
        }
        Ok(())
    }
}

/// history of `max_ops` operations at most, after `start` elements were pushed
fn history<T: Elem, const N: usize>(
    max_ops: usize,
    start: usize,
    mini: bool,
    rng: &mut Rng,
    st: &mut Stats,
) -> Case {
    ledger::reset();
    ZST.set((0, 0));
    CALLS.set(0);
    LIVE.with(|l| l.borrow_mut().clear());
    WRONG.with(|w| w.borrow_mut().take());
    let cap = match rng.below(4) {
        0 | 1 => None,
        2 => Some(rng.below(N + 3)),
        _ => Some(rng.below(40)),
    };
    let mut sim = Sim::<T, N> {
        v: Some(match cap {
            None if rng.chance(1, 4) => logged(Default::default),
            None => logged(ShortVec::new),
            Some(c) => logged(|| ShortVec::with_capacity(c)),
        }),
        model: vec![],
        next: rng.below(1000) as u64,
        needed: 0,
        room: None,
        trail: vec![],
    };
    let mut spilled_late = false;
    if let Some(c) = cap {
        sim.reserved(c);
    }
    sim.check(0)?;
    let mut calls0 = 0;
    if start > 0 {
        sim.apply(Op::Bulk(start), rng)?;
        sim.check(0)?;
    }
    for _ in 0..rng.below(max_ops) {
        let o = op(rng, N, sim.model.len(), mini);
        let was = sim.needed;
        let before = sim.model.len();
        let c = CALLS.get();
        sim.apply(o, rng)?;
        if o == Op::Huge {
            // allocations made for the panic message are not the vector's
            calls0 += CALLS.get() - c;
        }
        if was <= N && sim.needed > N && before > 0 {
            spilled_late = true;
        }
        if !mini || rng.chance(1, 3) {
            sim.check(calls0)?;
        }
        st.add("operations", 1);
    }
    let len = sim.model.len();
    let v = sim.v.take();
    logged(move || drop(v));
    sim.wrong()?;
    let left = LIVE.with(|l| l.borrow().len());
    ensure!(
        left == 0,
        "{}",
        sim.fail(format!("{left} block(s) of memory never returned")).0
    );
    if let Err(m) = ledger::balanced() {
        return Err(sim.fail(m));
    }
    let (a, b) = ZST.get();
    ensure!(a == b, "{}", sim.fail(format!("{a} zero-sized elements made, {b} released")).0);
    st.add("elements_tracked", ledger::created() + a);
    st.add("allocator_calls", CALLS.get());
    st.add(&format!("type {}", T::NAME), 1);
    if spilled_late {
        st.add("spills_with_elements", 1);
    }
    if len > 0 {
        st.add("dropped_non_empty", 1);
    }
    st.distinct((T::NAME, N, cap, &sim.trail));
    if st.want_sample() && sim.trail.len() > 6 {
        st.sample(|| format!("ShortVec<{}, {N}> capacity {cap:?}: {:?}", T::NAME, sim.trail));
    }
    Ok(())
}

fn sized<T: Elem>(max_ops: usize, mini: bool, rng: &mut Rng, st: &mut Stats) -> Case {
    match rng.below(if mini { 8 } else { 11 }) {
        0 => history::<T, 0>(max_ops, 0, mini, rng, st),
        1 => history::<T, 1>(max_ops, 0, mini, rng, st),
        2 => history::<T, 2>(max_ops, 0, mini, rng, st),
        3 => history::<T, 3>(max_ops, 0, mini, rng, st),
        4 => history::<T, 4>(max_ops, 0, mini, rng, st),
        5 => history::<T, 5>(max_ops, 0, mini, rng, st),
        6 => history::<T, 8>(max_ops, 0, mini, rng, st),
        7 => history::<T, 17>(max_ops, 0, mini, rng, st),
        8 => history::<T, 64>(max_ops, rng.below(80), mini, rng, st),
        9 => history::<T, 257>(max_ops, rng.below(300), mini, rng, st),
        _ => history::<T, 300>(max_ops, rng.below(330), mini, rng, st),
    }
}

/// few operations on very many elements
fn long_sized<T: Elem>(rng: &mut Rng, st: &mut Stats) -> Case {
    let start = match rng.below(4) {
        0 => rng.range(65_530, 65_545),
        1 => rng.range(32_760, 32_775),
        2 => rng.range(131_065, 131_080),
        _ => rng.range(3000, 140_000),
    };
    st.add("long_histories", 1);
    match rng.below(3) {
        0 => history::<T, 0>(8, start, false, rng, st),
        1 => history::<T, 17>(8, start, false, rng, st),
        _ => history::<T, 300>(8, start, false, rng, st),
    }
}

fn long_case(rng: &mut Rng, st: &mut Stats) -> Case {
    match rng.below(6) {
        0 => long_sized::<u8>(rng, st),
        1 => long_sized::<u16>(rng, st),
        2 => long_sized::<u64>(rng, st),
        3 => long_sized::<String>(rng, st),
        4 => long_sized::<Tracked>(rng, st),
        _ => long_sized::<Zst>(rng, st),
    }
}

fn case(mini: bool, rng: &mut Rng, st: &mut Stats) -> Case {
    let m = if mini {
        14
    } else if rng.chance(1, 20) {
        400
    } else {
        40
    };
    match rng.below(11) {
        0 => sized::<u8>(m, mini, rng, st),
        1 => sized::<u16>(m, mini, rng, st),
        2 => sized::<u64>(m, mini, rng, st),
        3 => sized::<u128>(m, mini, rng, st),
        4 => sized::<[u64; 5]>(m, mini, rng, st),
        5 => sized::<String>(m, mini, rng, st),
        6 => sized::<Tracked>(m, mini, rng, st),
        7 => sized::<Wide>(m, mini, rng, st),
        8 => sized::<Big>(m, mini, rng, st),
        9 => sized::<Zst>(m, mini, rng, st),
        _ => sized::<ZstWide>(m, mini, rng, st),
    }
}

// ---- elements whose release panics ------------------------------------------------------------
struct Fragile {
    armed: bool,
    _tok: Tok,
    _fill: [u32; 3],
}
impl Drop for Fragile {
    fn drop(&mut self) {
        if std::mem::take(&mut self.armed) && !std::thread::panicking() {
            std::panic::panic_any(Injected)
        }
    }
}
struct FragileZst;
thread_local! {
    static FUSE: Cell<u64> = const { Cell::new(0) };
}
impl Drop for FragileZst {
    fn drop(&mut self) {
        zst_dropped();
        let n = FUSE.get();
        FUSE.set(n.saturating_sub(1));
        if n == 1 && !std::thread::panicking() {
            std::panic::panic_any(Injected)
        }
    }
}

/// the vector is dropped, and the release of one of its elements unwinds
fn fragile<const N: usize>(rng: &mut Rng, st: &mut Stats) -> Case {
    ledger::reset();
    ZST.set((0, 0));
    LIVE.with(|l| l.borrow_mut().clear());
    WRONG.with(|w| w.borrow_mut().take());
    let n = rng.below(2 * N + 6);
    let armed = rng.below(n + 2);
    let story = format!("ShortVec<_, {N}> of {n} elements is dropped, the release of element {armed} unwinds");
    if rng.chance(1, 4) {
        let mut v = ShortVec::<FragileZst, N>::new();
        for _ in 0..n {
            zst_made();
            v.push(FragileZst);
        }
        FUSE.set(armed as u64);
        let unwound = guarded(|| drop(v)).is_err();
        FUSE.set(0);
        let (a, b) = ZST.get();
        ensure!(b == a || b < a && unwound, "{story}: {a} zero-sized elements made, {b} released");
        st.add("fragile zero-sized", 1);
        return Ok(());
    }
    let mut v = ShortVec::<Fragile, N>::new();
    logged(|| {
        for i in 0..n {
            v.push(Fragile { armed: i == armed, _tok: quiet(Tok::new), _fill: [0; 3] });
        }
    });
    let mut blocks = LIVE.with(|l| l.borrow().clone());
    blocks.retain(|b| b.1.align() == std::mem::align_of::<Fragile>() && b.1.size() % std::mem::size_of::<Fragile>() == 0);
    let at = v.as_ptr() as usize;
    blocks.retain(|b| b.0 == at);
    let unwound = guarded(|| logged(|| drop(v))).is_err();
    ensure!(unwound == (armed < n), "{story}: unwound {unwound}");
    // a release that unwinds may keep others from being released, but not release them again
    let settled = ledger::balanced();
    if let (Err(m), true) = (settled, ledger::double_releases() > 0 || !unwound) {
        return Err(Viol(format!("{story}: {m}")));
    }
    if let Some(w) = WRONG.with(|w| w.borrow_mut().take()) {
        return Err(Viol(format!("{story}: {w}")));
    }
    let left = LIVE.with(|l| l.borrow().iter().any(|b| blocks.contains(b)));
    ensure!(!left, "{story}: its memory was never returned");
    if unwound {
        st.add("releases_unwound", 1);
        if !blocks.is_empty() {
            st.add("releases_unwound_with_memory", 1);
        }
    }
    st.distinct((N, n, armed));
    Ok(())
}

fn fragile_case(rng: &mut Rng, st: &mut Stats) -> Case {
    match rng.below(5) {
        0 => fragile::<0>(rng, st),
        1 => fragile::<1>(rng, st),
        2 => fragile::<3>(rng, st),
        3 => fragile::<8>(rng, st),
        _ => fragile::<40>(rng, st),
    }
}

fn main() {
    let a = Args::parse();
    let mini = a.mini;
    let mut r = Report::new(&a);
    r.part("histories", a.cases(120_000, 60), |g, s| case(mini, g, s));
    let mut need = vec![];
    if a.prop == "C10" {
        r.part("fragile", a.cases(20_000, 20), fragile_case);
        need.push("releases_unwound_with_memory");
    }
    if !mini {
        r.part("long", a.cases(60, 0), long_case);
        need.push("long_histories");
    }
    need.extend_from_slice(
        &["spills_with_elements", "dropped_non_empty", "elements_tracked", "allocator_calls", "type zero-sized", "type tracked align(64)"],
    );
    r.finish(30_000, &need);
}
