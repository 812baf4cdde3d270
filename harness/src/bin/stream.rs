//! C15-C18: histories of a buffered stream with a scripted source, judged by a list model.
//! C19: the two sides of a stream on different threads.
use parcom_sequence_core::{
    BufferWriter, LoadInfo, SequenceBuffer, SequenceBuilder, SequenceControl, SequenceLoader,
    SequenceSource,
};
use parcom_sequence_sources::iterator_source::IteratorSource;
use parcom_sequences::generic::GenericSequenceBuilder;
use parcom_sequences::BufferStrategy;
use parcom_verif::driver::{guarded, Args, Case, Caught, Injected, Report, Stats, Viol};
use parcom_verif::ledger::{self, Tok};
use parcom_verif::rng::Rng;
use std::cell::{Cell, RefCell};
use std::collections::BTreeSet;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};

// ---- items -------------------------------------------------------------------------------------
trait Item: 'static {
    const NAME: &'static str;
    fn make(id: u64) -> Self;
    fn val(&self) -> u64;
    /// how many are alive, if that is tracked
    fn live() -> Option<i64> {
        None
    }
}
impl Item for u8 {
    const NAME: &'static str = "u8";
    fn make(id: u64) -> Self {
        (id % 251) as u8
    }
    fn val(&self) -> u64 {
        *self as u64
    }
}
impl Item for u32 {
    const NAME: &'static str = "u32";
    fn make(id: u64) -> Self {
        id as u32
    }
    fn val(&self) -> u64 {
        *self as u64
    }
}
struct Owned(Tok, Box<u64>);
impl Item for Owned {
    const NAME: &'static str = "tracked box";
    fn make(id: u64) -> Self {
        Owned(Tok::new(), Box::new(id))
    }
    fn val(&self) -> u64 {
        *self.1
    }
    fn live() -> Option<i64> {
        Some(ledger::live())
    }
}
impl Clone for Owned {
    fn clone(&self) -> Self {
        Owned(Tok::new(), self.1.clone())
    }
}
thread_local! {
    static ZST: Cell<i64> = const { Cell::new(0) };
}
struct Zst;
impl Drop for Zst {
    fn drop(&mut self) {
        ZST.set(ZST.get() - 1)
    }
}
impl Item for Zst {
    const NAME: &'static str = "zero-sized";
    fn make(_: u64) -> Self {
        ZST.set(ZST.get() + 1);
        Zst
    }
    fn val(&self) -> u64 {
        0
    }
    fn live() -> Option<i64> {
        Some(ZST.get())
    }
}
#[repr(align(64))]
#[derive(Clone)]
struct Wide(Owned);
impl Item for Wide {
    const NAME: &'static str = "tracked align(64)";
    fn make(id: u64) -> Self {
        Wide(Owned::make(id))
    }
    fn val(&self) -> u64 {
        assert!(self as *const _ as usize % 64 == 0, "misaligned item");
        self.0.val()
    }
    fn live() -> Option<i64> {
        Owned::live()
    }
}

// ---- policies ----------------------------------------------------------------------------------
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
enum Policy {
    Exact,
    Double,
    Const(usize),
    Plus(usize),
    Half,
    Zero,
    /// alternates between more and less than asked
    Erratic,
}
thread_local! {
    static POLICY_PANICS: Cell<bool> = const { Cell::new(false) };
    static ERRATIC: Cell<usize> = const { Cell::new(0) };
}
impl BufferStrategy for Policy {
    fn calc_capacity(&self, min: usize) -> usize {
        if POLICY_PANICS.replace(false) {
            std::panic::panic_any(Injected)
        }
        match self {
            Policy::Exact => min,
            Policy::Double => min.saturating_mul(2).saturating_add(1),
            Policy::Const(n) => *n,
            Policy::Plus(n) => min.saturating_add(*n),
            Policy::Half => min / 2,
            Policy::Zero => 0,
            Policy::Erratic => {
                let n = ERRATIC.get() + 1;
                ERRATIC.set(n);
                min.saturating_mul(n % 4) / 2
            }
        }
    }
}
fn policy(rng: &mut Rng) -> Policy {
    if !cfg!(miri) && rng.chance(1, 20) {
        return if rng.chance(1, 2) { Policy::Const(rng.below(3000)) } else { Policy::Plus(rng.below(1000)) };
    }
    match rng.below(9) {
        0 => Policy::Exact,
        1 => Policy::Double,
        2 | 3 => Policy::Const(rng.below(24)),
        4 | 5 => Policy::Plus(rng.below(12)),
        6 => Policy::Half,
        7 => Policy::Zero,
        _ => Policy::Erratic,
    }
}

// ---- verdicts ----------------------------------------------------------------------------------
struct Bad {
    tags: &'static [&'static str],
    what: String,
}
type R<T = ()> = Result<T, Bad>;
thread_local! {
    /// the property that is being checked
    static PROP: std::cell::Cell<&'static str> = const { std::cell::Cell::new("") };
}
fn bad<T>(tags: &'static [&'static str], what: impl Into<String>) -> R<T> {
    Err(Bad { tags, what: what.into() })
}

// ---- scripted source ---------------------------------------------------------------------------
#[derive(Debug, Clone, PartialEq)]
enum Ended {
    Nothing,
    Accepted,
    Finished,
    Failed(u64),
}

struct Shared {
    /// values written in the running attempt
    attempt: Vec<u64>,
    ended: Ended,
    next_id: u64,
    finished: bool,
    bad: Option<Bad>,
    trail: Vec<String>,
    bytes_asked: usize,
    /// items of a load that may have been abandoned with its answer in hand; they are alive until
    /// the next load or forced commit
    held: usize,
}

/// error of the source; tracked, so that it is neither lost nor doubled
struct SrcErr(u64, #[allow(dead_code)] Tok);

#[derive(Clone, Copy, Debug)]
struct SrcCfg {
    faults: bool,
    /// out of 100
    finish: usize,
    max_piece: usize,
    suspend: bool,
    /// works before its future is polled
    eager: bool,
}

struct Script<T> {
    rng: Rng,
    cfg: SrcCfg,
    sh: Rc<RefCell<Shared>>,
    _t: std::marker::PhantomData<T>,
}

struct Suspend(usize);
impl Future for Suspend {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.0 == 0 {
            return Poll::Ready(());
        }
        self.0 -= 1;
        cx.waker().wake_by_ref();
        Poll::Pending
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Fault {
    No,
    ErrorEarly,
    ErrorLate,
    PanicEarly,
    PanicLate,
}

impl<T: Item> Script<T> {
    async fn run<C>(&mut self, control: C) -> C::Result
    where
        C: SequenceControl<Item = T, Error = SrcErr>,
    {
        let r = self.work(control).await;
        let held = self.sh.borrow().attempt.len();
        self.sh.borrow_mut().held = held;
        // it has its answer, but does not return it at once
        if self.cfg.suspend && self.rng.chance(1, 4) {
            let ended = std::mem::replace(&mut self.sh.borrow_mut().ended, Ended::Nothing);
            self.sh.borrow_mut().trail.push("lingers".into());
            Suspend(self.rng.range(1, 2)).await;
            self.sh.borrow_mut().ended = ended;
        }
        if self.cfg.faults && self.rng.chance(1, 25) {
            self.sh.borrow_mut().ended = Ended::Nothing;
            self.sh.borrow_mut().trail.push("source panics with its answer in hand".into());
            std::panic::panic_any(Injected)
        }
        self.sh.borrow_mut().held = 0;
        r
    }
    async fn work<C>(&mut self, control: C) -> C::Result
    where
        C: SequenceControl<Item = T, Error = SrcErr>,
    {
        let cfg = self.cfg;
        let rng = &mut self.rng;
        let sh = &self.sh;
        sh.borrow_mut().attempt.clear();
        sh.borrow_mut().held = 0;
        sh.borrow_mut().ended = Ended::Nothing;
        let susp = |rng: &mut Rng| if cfg.suspend && rng.chance(1, 3) { rng.range(1, 2) } else { 0 };
        let fault = if cfg.faults && rng.chance(2, 5) {
            *rng.pick(&[Fault::ErrorEarly, Fault::ErrorLate, Fault::PanicEarly, Fault::PanicLate])
        } else {
            Fault::No
        };
        Suspend(susp(rng)).await;
        let error = |sh: &RefCell<Shared>| {
            let mut s = sh.borrow_mut();
            s.next_id += 1;
            let id = s.next_id;
            s.ended = Ended::Failed(id);
            SrcErr(id, Tok::new())
        };
        match fault {
            Fault::ErrorEarly => {
                sh.borrow_mut().trail.push("source error before writing".into());
                return control.cancel(error(sh));
            }
            Fault::PanicEarly => {
                match rng.below(4) {
                    0 => {
                        sh.borrow_mut().trail.push("the sizing policy panics".into());
                        POLICY_PANICS.set(true);
                        let _w = control.request_writer(rng.below(cfg.max_piece + 3));
                        POLICY_PANICS.set(false);
                        std::panic::panic_any(Injected)
                    }
                    1 if std::mem::size_of::<T>() > 0 => {
                        // there is no such room
                        sh.borrow_mut().trail.push("source asks for the impossible".into());
                        let ask = usize::MAX - rng.below(5);
                        let asking = std::panic::AssertUnwindSafe(|| control.request_writer(ask).capacity());
                        if let Ok(cap) = std::panic::catch_unwind(asking) {
                            sh.borrow_mut().bad = Some(Bad { tags: &["C15"], what: format!("asked for room for {ask}, got room for {cap}") });
                        }
                        std::panic::panic_any(Injected)
                    }
                    _ => {}
                }
                sh.borrow_mut().trail.push("source panics before writing".into());
                std::panic::panic_any(Injected)
            }
            _ => {}
        }
        let fin = sh.borrow().finished || (fault == Fault::No && rng.chance(cfg.finish, 100));
        if fin {
            let mut s = sh.borrow_mut();
            s.finished = true;
            s.ended = Ended::Finished;
            s.trail.push("source finishes".into());
            drop(s);
            return control.finish();
        }
        let ask = match rng.below(8) {
            0 => 0,
            1 => 1,
            _ => rng.below(cfg.max_piece + 1),
        };
        let mut w = control.request_writer(ask);
        let cap = w.capacity();
        {
            let mut s = sh.borrow_mut();
            s.bytes_asked += ask;
            s.trail.push(format!("asked {ask}"));
            if cap < ask {
                s.bad = Some(Bad { tags: &["C15"], what: format!("asked for room for {ask}, got room for {cap}") });
                s.ended = Ended::Nothing;
                drop(s);
                std::panic::panic_any(Injected);
            }
            if w.len() != 0 {
                let l = w.len();
                s.bad = Some(Bad { tags: &["C15"], what: format!("a fresh writer already holds {l} items") });
                drop(s);
                std::panic::panic_any(Injected);
            }
        }
        let roomy = cap.min(ask + if rng.chance(1, 8) { 300 } else { 9 });
        let count = match rng.below(6) {
            0 => 0,
            1 => roomy,
            2 => rng.below(roomy + 1),
            3 => rng.below(ask + 1),
            _ => ask,
        };
        let mut written = 0;
        while written < count {
            let id = {
                let mut s = sh.borrow_mut();
                s.next_id += 1;
                s.next_id
            };
            let item = T::make(id);
            let v = item.val();
            match rng.below(6) {
                0 => unsafe {
                    // SAFETY: written < capacity
                    w.as_mut_ptr().add(written).write(item);
                    w.set_len(written + 1);
                },
                1 => unsafe {
                    let spare = w.spare_capacity();
                    assert!(!spare.is_empty(), "no spare room although the writer is not full");
                    spare[0].write(item);
                    w.set_len(written + 1);
                },
                2 => {
                    // several at once through the spare room
                    let mut items = vec![item];
                    let mut vals = vec![v];
                    while written + items.len() < count && items.len() < 5 {
                        let mut s = sh.borrow_mut();
                        s.next_id += 1;
                        let x = T::make(s.next_id);
                        vals.push(x.val());
                        items.push(x);
                    }
                    let spare = w.spare_capacity();
                    assert!(spare.len() >= items.len(), "spare room is smaller than the capacity left");
                    let k = items.len();
                    for (slot, x) in spare.iter_mut().zip(items) {
                        slot.write(x);
                    }
                    unsafe { w.set_len(written + k) };
                    sh.borrow_mut().attempt.extend(&vals[..k - 1]);
                    written += k - 1;
                    let last = vals[k - 1];
                    sh.borrow_mut().attempt.push(last);
                    written += 1;
                    continue;
                }
                _ => {
                    if w.push_item(item).is_err() {
                        let mut s = sh.borrow_mut();
                        s.bad = Some(Bad { tags: &["C15"], what: format!("item {written} refused although there was room for {cap}") });
                        drop(s);
                        std::panic::panic_any(Injected);
                    }
                }
            }
            sh.borrow_mut().attempt.push(v);
            written += 1;
            if rng.chance(1, 6) {
                Suspend(susp(rng)).await;
            }
            // overwrite one in place
            if rng.chance(1, 12) {
                let i = rng.below(written);
                let mut s = sh.borrow_mut();
                s.next_id += 1;
                let x = T::make(s.next_id);
                s.attempt[i] = x.val();
                w.as_mut_slice()[i] = x;
            }
            // shrinking to more than was written must not conjure items: refused or ignored
            if rng.chance(1, 60) {
                let more = written + 1 + rng.below(3);
                let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| w.shrink_to(more)));
                if w.len() != written {
                    let what = format!("{written} items were written, and after shrinking to {more} the writer says it holds {}", w.len());
                    unsafe { w.set_len(written) };
                    sh.borrow_mut().bad = Some(Bad { tags: &["C15"], what });
                    std::panic::panic_any(Injected);
                }
            }
            // take some back
            if rng.chance(1, 15.max(count / 2)) {
                let keep = rng.below(written + 1);
                w.shrink_to(keep);
                sh.borrow_mut().attempt.truncate(keep);
                written = keep;
                if rng.chance(1, 2) {
                    break;
                }
            }
        }
        if written == cap && cap < 40 {
            let x = T::make(u64::MAX / 2);
            if w.push_item(x).is_ok() {
                let mut s = sh.borrow_mut();
                s.bad = Some(Bad { tags: &["C15"], what: "an item was accepted beyond the capacity".into() });
                drop(s);
                std::panic::panic_any(Injected);
            }
        }
        {
            let got: Vec<u64> = w.as_slice().iter().map(|x| x.val()).collect();
            let mut s = sh.borrow_mut();
            if got != s.attempt || w.len() != got.len() {
                let what = format!("the writer holds {got:?} after {:?} were written", s.attempt);
                s.bad = Some(Bad { tags: &["C15"], what });
                drop(s);
                std::panic::panic_any(Injected);
            }
        }
        Suspend(susp(rng)).await;
        match fault {
            Fault::ErrorLate => {
                sh.borrow_mut().trail.push(format!("source error after writing {written}"));
                w.cancel(error(sh))
            }
            Fault::PanicLate => {
                sh.borrow_mut().trail.push(format!("source panics after writing {written}"));
                std::panic::panic_any(Injected)
            }
            _ => {
                let mut s = sh.borrow_mut();
                s.trail.push(format!("hands over {written}"));
                s.ended = Ended::Accepted;
                drop(s);
                w.advance()
            }
        }
    }
}

impl<T: Item> SequenceSource for Script<T> {
    type Item = T;
    type Error = SrcErr;
    type Next<'a, C>
        = Pin<Box<dyn Future<Output = C::Result> + 'a>>
    where
        Self: 'a,
        C: 'a + SequenceControl<Item = T, Error = SrcErr>;

    fn next<'a, C>(&'a mut self, control: C, _: usize) -> Self::Next<'a, C>
    where
        C: 'a + SequenceControl<Item = T, Error = SrcErr>,
    {
        let eager = self.cfg.eager;
        let mut fut = Box::pin(self.run(control));
        if eager {
            // a source that works as soon as it is asked
            if let Poll::Ready(r) = fut.as_mut().poll(&mut Context::from_waker(Waker::noop())) {
                return Box::pin(std::future::ready(r));
            }
        }
        fut
    }
}

// ---- the list model ----------------------------------------------------------------------------
struct Sim {
    sh: Rc<RefCell<Shared>>,
    accepted: Vec<u64>,
    consumed: usize,
    faulted: bool,
    advanced: bool,
    finished: bool,
    /// where the pieces seen so far end
    ends: BTreeSet<usize>,
}

fn visible<Bf, T: Item>(buf: &Bf) -> R<Vec<u64>>
where
    Bf: SequenceBuffer<Segment = [T]>,
{
    let mut out = vec![];
    for (i, seg) in buf.segments().enumerate() {
        if i > 100_000 {
            return bad(&["C15", "C18"], "an enumeration does not end");
        }
        out.extend(seg.iter().map(|x| x.val()));
    }
    Ok(out)
}

impl Sim {
    fn tags(&self) -> &'static [&'static str] {
        match (self.faulted, self.advanced) {
            (false, false) => &["C15"],
            (false, true) => &["C15", "C18"],
            (true, false) => &["C17"],
            (true, true) => &["C17", "C18"],
        }
    }
    /// what the consumer sees is a prefix of what was accepted; returns how many items are visible
    fn prefix<Bf, T: Item>(&self, buf: &Bf) -> R<usize>
    where
        Bf: SequenceBuffer<Segment = [T]>,
    {
        let vis = visible(buf)?;
        let upto = self.consumed + vis.len();
        if upto > self.accepted.len() || vis[..] != self.accepted[self.consumed..upto] {
            return bad(
                self.tags(),
                format!(
                    "visible {vis:?} after {} consumed is not a prefix of what was handed over {:?}",
                    self.consumed, self.accepted
                ),
            );
        }
        Ok(upto)
    }
    /// the ends of the pieces the consumer sees
    fn learn<Bf, T: Item>(&mut self, buf: &Bf)
    where
        Bf: SequenceBuffer<Segment = [T]>,
    {
        let mut at = self.consumed;
        for s in buf.segments() {
            at += s.len();
            self.ends.insert(at);
        }
    }
    /// no load is under way: what the consumer has advanced over is released, except for the items
    /// of the piece it is in and of the one before
    fn released<T: Item>(&self, st: &mut Stats) -> R {
        let Some(live) = T::live() else { return Ok(()) };
        let mut passed = self.ends.range(..=self.consumed).rev();
        let _ = passed.next();
        let from = passed.next().copied().unwrap_or(0);
        let kept = self.accepted.len() - from + self.sh.borrow().held;
        if live > kept as i64 {
            return bad(&["C32"], format!(
                "{live} items are alive although only {kept} of {} are not in pieces the consumer has left behind; \
                 consumed {}, ends of pieces {:?}",
                self.accepted.len(), self.consumed, self.ends
            ));
        }
        st.add("release_checks", 1);
        st.max("max_items_released_while_running", from as u64);
        if from > 0 {
            st.add("release_checks_with_pieces_left_behind", 1);
        }
        Ok(())
    }
    /// no consumer: only what is not commited may stay, and the last piece that was
    fn unread<T: Item>(&self, commited: usize, st: &mut Stats) -> R {
        let Some(live) = T::live() else { return Ok(()) };
        let from = self.ends.range(..commited).next_back().copied().unwrap_or(0);
        let kept = self.accepted.len() - from + self.sh.borrow().held;
        if live > kept as i64 {
            return bad(&["C32"], format!(
                "{live} items are alive without a consumer although {} were handed over, {commited} commited; \
                 ends of pieces {:?}",
                self.accepted.len(), self.ends
            ));
        }
        st.add("release_checks_without_consumer", 1);
        Ok(())
    }
    fn all<Bf, T: Item>(&self, buf: &Bf, when: &str) -> R
    where
        Bf: SequenceBuffer<Segment = [T]>,
    {
        let v = self.prefix(buf)?;
        if v != self.accepted.len() {
            return bad(
                if self.faulted { &["C17"] } else { &["C15"] },
                format!("{when} only {v} of {} items handed over are visible", self.accepted.len()),
            );
        }
        Ok(())
    }

    fn load<L, Bf, T: Item>(
        &mut self,
        loader: &mut L,
        buf: &Bf,
        drop_at: Option<usize>,
        st: &mut Stats,
    ) -> R
    where
        L: SequenceLoader<Segment = [T], Error = SrcErr>,
        Bf: SequenceBuffer<Segment = [T]>,
    {
        let before = self.prefix(buf)?;
        let mut polls = 0;
        {
            let fut = match guarded(|| Box::pin(loader.load())) {
                Ok(f) => Some(f),
                Err(Caught::Injected) => None,
                Err(Caught::Code(m)) | Err(Caught::Harness(m)) => {
                    return bad(if self.faulted { &["C17"] } else { &["C15", "C16"] }, m)
                }
            };
            let mut fut = fut;
            let res = loop {
                let Some(fut) = fut.as_mut() else {
                    break Some(Err(()));
                };
                if Some(polls) == drop_at {
                    if polls == 0 {
                        st.add("loads_never_polled", 1);
                    }
                    break None;
                }
                let r = guarded(|| fut.as_mut().poll(&mut Context::from_waker(Waker::noop())));
                match r {
                    Ok(Poll::Ready(r)) => break Some(Ok(r)),
                    Ok(Poll::Pending) => {
                        polls += 1;
                        self.prefix(buf)?;
                        st.add("suspended_loads_observed", 1);
                        if polls > 100_000 {
                            return bad(&["C15"], "a load does not end");
                        }
                    }
                    Err(Caught::Injected) => break Some(Err(())),
                    Err(Caught::Code(m)) | Err(Caught::Harness(m)) => {
                        return bad(if self.faulted { &["C17"] } else { &["C15", "C16"] }, m)
                    }
                }
            };
            drop(fut);
            if let Some(b) = self.sh.borrow_mut().bad.take() {
                return Err(b);
            }
            match res {
                None => {
                    self.sh.borrow_mut().trail.push("load dropped".into());
                    st.add("loads_dropped", 1);
                    self.faulted = true;
                }
                Some(Err(())) => {
                    st.add("loads_panicked", 1);
                    self.faulted = true;
                }
                Some(Ok(Err(e))) => {
                    st.add("loads_failed", 1);
                    self.faulted = true;
                    let want = self.sh.borrow().ended.clone();
                    if want != Ended::Failed(e.0) {
                        return bad(&["C17"], format!("error {} reached the caller, the source ended with {want:?}", e.0));
                    }
                }
                Some(Ok(Ok(info))) => {
                    st.add("loads_ok", 1);
                    return self.loaded(info, before, buf, st);
                }
            }
        }
        let v = self.prefix(buf)?;
        if v > self.accepted.len() {
            return bad(&["C17"], "a failed load made items visible");
        }
        Ok(())
    }

    fn loaded<Bf, T: Item>(&mut self, info: LoadInfo, before: usize, buf: &Bf, st: &mut Stats) -> R
    where
        Bf: SequenceBuffer<Segment = [T]>,
    {
        let (ended, attempt) = {
            let s = self.sh.borrow();
            (s.ended.clone(), s.attempt.clone())
        };
        let was_finished = self.finished;
        match ended {
            Ended::Accepted => self.accepted.extend(attempt),
            Ended::Finished => self.finished = true,
            Ended::Failed(e) => {
                return bad(&["C17"], format!("the source failed with error {e} but the load succeeded"))
            }
            Ended::Nothing => return bad(&["C15", "C16"], "the load succeeded before the source was done"),
        }
        self.report(&info, before, was_finished, buf, st)
    }

    fn report<Bf, T: Item>(
        &self,
        info: &LoadInfo,
        before: usize,
        was_finished: bool,
        buf: &Bf,
        st: &mut Stats,
    ) -> R
    where
        Bf: SequenceBuffer<Segment = [T]>,
    {
        let v = self.prefix(buf)?;
        let shown = format!(
            "commited {} uncommited {} capacity {} done {}",
            info.commited(),
            info.uncommited(),
            info.buffer_capacity(),
            info.is_done()
        );
        // a wrong report changes nothing for the other properties: go on watching for theirs
        let own = PROP.get() == "C16";
        let fail = |m: String| {
            if own {
                bad(&["C16"], format!("{m}; the load reported {shown}"))
            } else {
                Ok(())
            }
        };
        if info.commited() != v - before {
            fail(format!("the load made {} items visible", v - before))?;
        }
        if info.is_done() != self.finished {
            fail(format!("the source has {}finished", if self.finished { "" } else { "not " }))?;
        }
        if info.is_done() {
            st.add("ends_reported", 1);
            if info.uncommited() != 0 || info.buffer_capacity() != 0 {
                fail("at the end nothing is uncommited".into())?;
            }
            if v != self.accepted.len() {
                return bad(
                    if self.faulted { &["C16", "C17"] } else { &["C15", "C16"] },
                    format!("{v} of {} items are visible at the end", self.accepted.len()),
                );
            }
            if was_finished {
                st.add("loads_after_the_end", 1);
                if info.commited() != 0 {
                    fail("a load after the end added items".into())?;
                }
            }
        }
        if info.uncommited() != self.accepted.len() - v {
            fail(format!("{} accepted items are not visible", self.accepted.len() - v))?;
        }
        if info.uncommited() > info.buffer_capacity() {
            fail("more uncommited items than capacity".into())?;
        }
        if info.uncommited() > 0 {
            st.add("reports_with_uncommited", 1);
        }
        if info.commited() > 0 {
            st.add("reports_with_commited", 1);
        }
        Ok(())
    }

    /// the consumer is gone, the loader goes on
    fn unconsumed<L, T: Item>(&mut self, loader: &mut L, mut commited: usize, rng: &mut Rng, st: &mut Stats) -> R
    where
        L: SequenceLoader<Segment = [T], Error = SrcErr>,
    {
        self.unread::<T>(commited, st)?;
        for _ in 0..rng.range(1, 30) {
            if rng.chance(1, 3) {
                loader.force_commit();
                self.sh.borrow_mut().trail.push("force_commit".into());
                self.sh.borrow_mut().held = 0;
                commited = self.accepted.len();
            } else {
                let Ok(mut fut) = guarded(|| Box::pin(loader.load())) else { continue };
                let drop_at = if rng.chance(1, 10) { rng.below(4) } else { 100_000 };
                let mut res = None;
                for _ in 0..=drop_at {
                    match guarded(|| fut.as_mut().poll(&mut Context::from_waker(Waker::noop()))) {
                        Ok(Poll::Pending) => {}
                        Ok(Poll::Ready(Ok(i))) => {
                            res = Some(i);
                            break;
                        }
                        Ok(Poll::Ready(Err(_))) | Err(Caught::Injected) => break,
                        Err(Caught::Code(m)) | Err(Caught::Harness(m)) => return bad(&["C15", "C17"], m),
                    }
                }
                drop(fut);
                if let Some(b) = self.sh.borrow_mut().bad.take() {
                    return Err(b);
                }
                let Some(i) = res else { continue };
                let s = self.sh.borrow();
                if s.ended == Ended::Accepted {
                    self.accepted.extend(&s.attempt);
                }
                drop(s);
                st.add("loads_without_consumer", 1);
                let Some(c) = self.accepted.len().checked_sub(i.uncommited()) else {
                    return bad(&["C16"], "more uncommited items than were handed over");
                };
                commited = c;
            }
            self.ends.insert(commited);
            self.unread::<T>(commited, st)?;
        }
        Ok(())
    }

    /// partial enumerations that live across commits
    fn enumerations<L, Bf, T: Item>(
        &mut self,
        loader: &mut L,
        buf: &Bf,
        rng: &mut Rng,
        st: &mut Stats,
    ) -> R
    where
        L: SequenceLoader<Segment = [T], Error = SrcErr>,
        Bf: SequenceBuffer<Segment = [T]>,
    {
        let mut its: Vec<(Bf::Iter<'_>, usize, usize)> = vec![(buf.segments(), self.consumed, 0)];
        let mut total = self.prefix(buf)?;
        for _ in 0..rng.range(2, 14) {
            match rng.below(8) {
                0 if its.len() < 4 => its.push((buf.segments(), self.consumed, 0)),
                1 => {
                    self.load(loader, buf, None, st)?;
                    total = self.prefix(buf)?;
                }
                2 => {
                    loader.force_commit();
                    self.sh.borrow_mut().trail.push("force_commit".into());
                    self.sh.borrow_mut().held = 0;
                    self.all(buf, "after a forced commit")?;
                    total = self.prefix(buf)?;
                }
                _ => {
                    let i = rng.below(its.len());
                    let (it, at, ended) = &mut its[i];
                    match it.next() {
                        None => {
                            if *at != total {
                                return bad(&["C18"], format!("an enumeration ended at item {at} of {total} visible"));
                            }
                            *ended = total + 1;
                            st.add("enumerations_exhausted", 1);
                        }
                        Some(seg) => {
                            let got: Vec<u64> = seg.iter().map(|x| x.val()).collect();
                            let end = *at + got.len();
                            if end > total || got[..] != self.accepted[*at..end] {
                                return bad(&["C18"], format!(
                                    "an enumeration at item {at} of {total} showed {got:?}, handed over: {:?}",
                                    self.accepted
                                ));
                            }
                            if *ended > 0 && !got.is_empty() {
                                st.add("enumerations_resumed", 1);
                                *ended = 0;
                            }
                            *at = end;
                        }
                    }
                }
            }
        }
        // drain them all
        for (mut it, mut at, _) in its {
            for i in 0.. {
                if i > 100_000 {
                    return bad(&["C18"], "an enumeration does not end");
                }
                let Some(seg) = it.next() else { break };
                let got: Vec<u64> = seg.iter().map(|x| x.val()).collect();
                let end = at + got.len();
                if end > total || got[..] != self.accepted[at..end] {
                    return bad(&["C18"], format!("an enumeration at item {at} of {total} showed {got:?}"));
                }
                at = end;
            }
            if at != total {
                return bad(&["C18"], format!("an enumeration ended at item {at} of {total} visible"));
            }
        }
        Ok(())
    }

    fn advance<Bf, T: Item>(&mut self, buf: &mut Bf, rng: &mut Rng, st: &mut Stats) -> R
    where
        Bf: SequenceBuffer<Segment = [T], Length = usize>,
    {
        let lens: Vec<usize> = buf.segments().map(|s| s.len()).collect();
        let avail: usize = lens.iter().sum();
        let n = match rng.below(8) {
            0 => 0,
            1 => avail,
            2 => avail + rng.below(5),
            3 => lens.first().copied().unwrap_or(0),
            4 if !lens.is_empty() => lens[..rng.below(lens.len()) + 1].iter().sum(),
            5 if rng.chance(1, 8) => avail.saturating_add(rng.excess()),
            _ => rng.below(avail + 1),
        };
        let want = n - n.min(avail);
        self.sh.borrow_mut().trail.push(format!("advance {n} of {avail}"));
        let got = buf.advance(n);
        self.consumed += n.min(avail);
        self.advanced = true;
        st.add("advances", 1);
        if n > avail {
            st.add("advances_past_the_visible", 1);
        }
        if got != want {
            return bad(&["C18"], format!("advancing by {n} with {avail} visible returned {got}"));
        }
        let left: usize = buf.segments().map(|s| s.len()).sum();
        if left != avail - n.min(avail) {
            return bad(&["C18"], format!("advancing by {n} with {avail} visible left {left}"));
        }
        let vis = visible(buf)?;
        if vis[..] != self.accepted[self.consumed..self.consumed + vis.len()] {
            return bad(&["C18"], format!("after advancing by {n} the consumer sees {vis:?}, handed over {:?}, consumed {}", self.accepted, self.consumed));
        }
        Ok(())
    }
}

struct Focus {
    prop: &'static str,
    cfg: SrcCfg,
    ops: usize,
}

fn scripted<T: Item, B: BufferStrategy>(
    f: &Focus,
    strategy: B,
    pol: Policy,
    rng: &mut Rng,
    st: &mut Stats,
) -> Case {
    ledger::reset();
    ZST.set(0);
    ERRATIC.set(0);
    let sh = Rc::new(RefCell::new(Shared {
        attempt: vec![],
        ended: Ended::Nothing,
        next_id: rng.below(250) as u64,
        finished: false,
        bad: None,
        trail: vec![],
        bytes_asked: 0,
        held: 0,
    }));
    let source = Script::<T> {
        rng: rng.fork(),
        cfg: f.cfg,
        sh: Rc::clone(&sh),
        _t: std::marker::PhantomData,
    };
    let (mut buf, mut loader) = GenericSequenceBuilder::verif_new(Arc::new(strategy)).build(source);
    let mut sim = Sim {
        sh: Rc::clone(&sh),
        accepted: vec![],
        consumed: 0,
        faulted: false,
        advanced: false,
        finished: false,
        ends: BTreeSet::new(),
    };
    let consumer_first = rng.chance(1, 2);
    let loader_gone = rng.chance(1, 4);
    let r: R = (|| {
        sim.all(&buf, "at the beginning")?;
        for _ in 0..rng.range(2, f.ops) {
            match rng.below(10) {
                0 => {
                    loader.force_commit();
                    sh.borrow_mut().trail.push("force_commit".into());
                    sh.borrow_mut().held = 0;
                    st.add("forced_commits", 1);
                    sim.all(&buf, "after a forced commit")?;
                }
                1 | 2 if f.prop != "C16" || rng.chance(1, 3) => sim.advance(&mut buf, rng, st)?,
                3 if f.prop == "C18" || rng.chance(1, 4) => sim.enumerations(&mut loader, &buf, rng, st)?,
                _ => {
                    let drop_at = if f.cfg.faults && rng.chance(1, 6) { Some(rng.below(4)) } else { None };
                    sim.load(&mut loader, &buf, drop_at, st)?;
                }
            }
            if f.prop == "C32" {
                sim.learn(&buf);
                sim.released::<T>(st)?;
            }
        }
        if f.prop == "C32" && rng.chance(1, 2) {
            // go on without the consumer
            let commited = sim.prefix(&buf)?;
            drop(buf);
            return sim.unconsumed::<_, T>(&mut loader, commited, rng, st);
        }
        // everything that was handed over arrives
        if rng.chance(1, 2) {
            loader.force_commit();
            sim.all(&buf, "after a final forced commit")?;
        } else {
            sh.borrow_mut().finished = true;
            for i in 0.. {
                sim.load(&mut loader, &buf, None, st)?;
                if sim.finished {
                    break;
                }
                if i > 10_000 {
                    return bad(&["C16"], "the end is never reported");
                }
            }
            sim.all(&buf, "at the end")?;
        }
        if loader_gone {
            // what is visible stays when the loader is gone
            drop(loader);
            let left = sim.prefix(&buf)?;
            if left != sim.accepted.len() {
                return bad(sim.tags(), "items vanished with the loader");
            }
            let n = rng.below(6);
            let avail = left - sim.consumed;
            sim.learn(&buf);
            if buf.advance(n) != n - n.min(avail) {
                return bad(&["C18"], "advancing without the loader");
            }
            sim.consumed += n.min(avail);
            sim.prefix(&buf)?;
            sim.released::<T>(st)?;
            drop(buf);
        } else if consumer_first {
            drop(buf);
            loader.force_commit();
            drop(loader);
        } else {
            drop(loader);
            drop(buf);
        }
        Ok(())
    })();
    match r {
        Err(b) if b.tags.contains(&f.prop) => {
            return Err(Viol(format!(
                "{} with policy {pol:?}: {}; history: {}",
                T::NAME,
                b.what,
                sh.borrow().trail.join(", ")
            )))
        }
        Err(_) => {
            st.add("ended_by_another_property", 1);
            return Ok(());
        }
        Ok(()) => {}
    }
    st.add("items_handed_over", sim.accepted.len() as u64);
    let trail = sh.borrow().trail.clone();
    drop(sh);
    if f.prop == "C17" || f.prop == "C15" {
        let bal = ledger::balanced().err().or_else(|| {
            (ZST.get() != 0).then(|| format!("{} zero-sized items never released or released twice", ZST.get()))
        });
        if let Some(m) = bal {
            if f.prop == "C17" && sim.faulted {
                return Err(Viol(format!("{} with policy {pol:?}: {m}; history: {}", T::NAME, trail.join(", "))));
            }
        }
        st.add("items_tracked", ledger::created());
    }
    let interesting = match f.prop {
        "C17" => sim.faulted && !sim.accepted.is_empty(),
        "C18" => sim.advanced && !sim.accepted.is_empty(),
        "C32" => T::live().is_some() && sim.ends.range(..sim.consumed).count() > 1,
        _ => sim.accepted.len() > 1,
    };
    if interesting {
        st.distinct((T::NAME, pol, &trail));
        if st.want_sample() && trail.len() > 6 {
            st.sample(|| format!("{} with policy {pol:?}: {}", T::NAME, trail.join(", ")));
        }
    }
    Ok(())
}

fn stream_case(prop: &'static str, mini: bool, rng: &mut Rng, st: &mut Stats) -> Case {
    PROP.set(prop);
    let mut f = Focus {
        prop,
        cfg: SrcCfg {
            faults: prop == "C17"
                || (prop == "C16" && rng.chance(1, 2))
                || (matches!(prop, "C15" | "C18" | "C32") && rng.chance(1, 4)),
            finish: *rng.pick(&[0, 3, 10]),
            max_piece: if mini { 4 } else { *rng.pick(&[2, 5, 5, 20]) },
            suspend: rng.chance(2, 3),
            eager: rng.chance(1, 4),
        },
        ops: if mini { 8 } else if rng.chance(1, 30) { 300 } else { 30 },
    };
    if !mini && rng.chance(1, 60) {
        f.cfg.max_piece = rng.range(100, 600);
        f.ops = 12;
    }
    focused(&f, policy(rng), rng, st)
}

/// pieces beyond 16 bit counts, or very many small ones
fn long_case(prop: &'static str, rng: &mut Rng, st: &mut Stats) -> Case {
    PROP.set(prop);
    let many = rng.chance(1, 2);
    let f = Focus {
        prop,
        cfg: SrcCfg {
            faults: prop == "C17",
            finish: 0,
            max_piece: if many { 3 } else { *rng.pick(&[1000, 5000, 70_000, 140_000]) },
            suspend: false,
            eager: rng.chance(1, 4),
        },
        ops: if many { 2500 } else { 8 },
    };
    let p = match rng.below(6) {
        0 if !many => Policy::Const(rng.range(65_530, 70_000)),
        1 if !many => Policy::Plus(rng.range(1, 70_000)),
        2 => Policy::Exact,
        3 => Policy::Zero,
        _ => policy(rng),
    };
    st.add(if many { "long_histories" } else { "large_pieces" }, 1);
    focused(&f, p, rng, st)
}

fn focused(f: &Focus, p: Policy, rng: &mut Rng, st: &mut Stats) -> Case {
    fn go<T: Item>(f: &Focus, p: Policy, rng: &mut Rng, st: &mut Stats) -> Case {
        match rng.below(4) {
            0 => scripted::<T, Arc<Policy>>(f, Arc::new(p), p, rng, st),
            1 => scripted::<T, Rc<Policy>>(f, Rc::new(p), p, rng, st),
            _ => scripted::<T, Policy>(f, p, p, rng, st),
        }
    }
    match rng.below(7) {
        0 => go::<u8>(f, p, rng, st),
        1 | 2 => go::<u32>(f, p, rng, st),
        3 | 4 => go::<Owned>(f, p, rng, st),
        5 => go::<Zst>(f, p, rng, st),
        _ => go::<Wide>(f, p, rng, st),
    }
}

/// items written in bulk: the value follows from the position
trait BulkItem: 'static + Copy + PartialEq {
    const MOST: u32;
    fn at(i: u128) -> Self;
}
impl BulkItem for u8 {
    const MOST: u32 = 24;
    fn at(i: u128) -> u8 {
        (i ^ (i >> 8) ^ (i >> 16)) as u8
    }
}
impl BulkItem for () {
    const MOST: u32 = 62;
    fn at(_: u128) {}
}

/// what the source is to do next: the room to ask for and how many to write, or to finish
struct Bulk<T>(Rc<Cell<(Option<(usize, usize)>, u128)>>, std::marker::PhantomData<T>);
impl<T: BulkItem> SequenceSource for Bulk<T> {
    type Item = T;
    type Error = &'static str;
    type Next<'a, C>
        = std::future::Ready<C::Result>
    where
        Self: 'a,
        C: 'a + SequenceControl<Item = T, Error = &'static str>;

    fn next<'a, C>(&'a mut self, control: C, _: usize) -> Self::Next<'a, C>
    where
        C: 'a + SequenceControl<Item = T, Error = &'static str>,
    {
        let (what, from) = self.0.get();
        std::future::ready(match what {
            None => control.finish(),
            Some((ask, count)) => {
                let mut w = control.request_writer(ask);
                if w.capacity() < ask {
                    return std::future::ready(w.cancel("too little room"));
                }
                if std::mem::size_of::<T>() > 0 {
                    for (i, slot) in w.spare_capacity()[..count].iter_mut().enumerate() {
                        slot.write(T::at(from + i as u128));
                    }
                }
                // SAFETY: count <= ask <= capacity, all written
                unsafe { w.set_len(count) };
                if w.len() != count {
                    return std::future::ready(w.cancel("the writer lost items"));
                }
                w.advance()
            }
        })
    }
}

/// one such history at a time, for the room they take
static ONE_VAST: std::sync::Mutex<()> = std::sync::Mutex::new(());

/// pieces of millions of items, and of more than 2^32 zero-sized ones
fn bulk_case(prop: &'static str, rng: &mut Rng, st: &mut Stats) -> Case {
    if rng.chance(1, 8) {
        bulk_on::<u8>(prop, rng, st)
    } else {
        bulk_on::<()>(prop, rng, st)
    }
}
fn bulk_on<T: BulkItem>(prop: &'static str, rng: &mut Rng, st: &mut Stats) -> Case {
    let size = |rng: &mut Rng| {
        let p = 1usize << rng.range(8, T::MOST as usize);
        match rng.below(4) {
            0 => p - 1 - rng.below(4),
            1 => p + rng.below(4),
            2 => rng.below(9),
            _ => rng.below(p),
        }
    };
    let pol = if T::MOST < 40 { policy(rng) } else { *rng.pick(&[Policy::Exact, Policy::Zero, Policy::Half]) };
    let plan = Rc::new(Cell::new((None, 0)));
    let source = Bulk::<T>(Rc::clone(&plan), std::marker::PhantomData);
    let (mut buf, mut loader) = GenericSequenceBuilder::verif_new(Arc::new(pol)).build(source);
    let (mut accepted, mut consumed, mut visible) = (0u128, 0u128, 0u128);
    let mut story = format!("items of {} bytes with policy {pol:?}", std::mem::size_of::<T>());
    let mut finished = false;
    // room for more than 2^32 items that take memory, most of which is never touched
    let vast = std::mem::size_of::<T>() > 0 && rng.chance(1, 12) && matches!(pol, Policy::Exact | Policy::Zero | Policy::Half);
    let vast = vast.then(|| ONE_VAST.lock().unwrap_or_else(|e| e.into_inner())).filter(|_| {
        let layout = std::alloc::Layout::array::<T>(6 << 30).unwrap();
        // SAFETY: not of size zero, released with the layout it was requested with
        unsafe {
            let p = std::alloc::alloc(layout);
            if !p.is_null() {
                std::alloc::dealloc(p, layout);
            }
            !p.is_null()
        }
    });
    let mut vast_left = vast.is_some();
    let fail = |tags: &[&str], m: String| -> Case {
        if tags.contains(&prop) {
            Err(Viol(m))
        } else {
            Ok(())
        }
    };
    for _ in 0..rng.range(3, 9) {
        match rng.below(8) {
            0 => {
                loader.force_commit();
                visible = accepted;
                story.push_str(", force_commit");
            }
            1 | 2 => {
                let avail = visible - consumed;
                let n = match rng.below(5) {
                    0 => avail as usize,
                    1 => (avail as usize).saturating_add(rng.below(9)),
                    2 => size(rng),
                    3 => usize::MAX,
                    _ => rng.below((avail as usize).saturating_add(1)),
                };
                story.push_str(&format!(", advance {n} of {avail}"));
                let got = buf.advance(n) as u128;
                let k = avail.min(n as u128);
                consumed += k;
                st.add("bulk_advances", 1);
                if got != n as u128 - k {
                    return fail(&["C18"], format!("{story}: {got} left over instead of {}", n as u128 - k));
                }
            }
            _ => {
                let end = rng.chance(1, 10);
                if end {
                    plan.set((None, accepted));
                    story.push_str(", the source finishes");
                } else {
                    let (ask, count) = if std::mem::take(&mut vast_left) {
                        st.add("vast_requests", 1);
                        let more = 1 << rng.range(0, 29);
                        ((1 << 32) + rng.below(more), rng.below(200))
                    } else {
                        let ask = size(rng);
                        (ask, if rng.chance(1, 2) { ask } else { rng.below(ask + 1) })
                    };
                    if accepted + count as u128 > usize::MAX as u128 {
                        break;
                    }
                    plan.set((Some((ask, count)), accepted));
                    story.push_str(&format!(", asked {ask}, handed over {count}"));
                }
                let r = match Box::pin(loader.load()).as_mut().poll(&mut Context::from_waker(Waker::noop())) {
                    Poll::Ready(r) => r,
                    Poll::Pending => return fail(&["C15"], format!("{story}: the load does not end")),
                };
                let info = match r {
                    Ok(i) => i,
                    Err(m) => return fail(&["C15"], format!("{story}: {m}")),
                };
                finished = end;
                if let (Some((_, n)), _) = plan.get() {
                    accepted += n as u128;
                }
                let now = consumed + buf.segments().map(|s| s.len() as u128).sum::<u128>();
                let want = if end {
                    (accepted - visible, 0)
                } else {
                    (now.saturating_sub(visible), accepted.saturating_sub(now))
                };
                let got = (info.commited() as u128, info.uncommited() as u128);
                st.add("bulk_reports", 1);
                if got != want || info.is_done() != end || info.uncommited() > info.buffer_capacity() {
                    fail(&["C16"], format!(
                        "{story}: {} visible, {accepted} handed over, {} committed before; reported commited {} uncommited {} capacity {} done {}",
                        now, visible, got.0, got.1, info.buffer_capacity(), info.is_done()
                    ))?;
                }
                if now < visible || now > accepted || (end && now != accepted) {
                    return fail(&["C15", "C16"], format!("{story}: {now} of {accepted} items visible, {visible} before"));
                }
                visible = now;
            }
        }
        // what the consumer sees
        let mut at = consumed;
        for s in buf.segments() {
            for _ in 0..8 {
                if s.is_empty() {
                    break;
                }
                let i = match rng.below(3) {
                    0 => 0,
                    1 => s.len() - 1,
                    _ => rng.below(s.len()),
                };
                if s[i] != T::at(at + i as u128) {
                    return fail(&["C15", "C18"], format!("{story}: item {} is not the one handed over", at + i as u128));
                }
            }
            at += s.len() as u128;
        }
        if at != visible {
            return fail(&["C15", "C18"], format!("{story}: {} items visible instead of {}", at - consumed, visible - consumed));
        }
        if finished {
            break;
        }
    }
    st.add("bulk_histories", 1);
    st.distinct(("bulk", &story));
    Ok(())
}

/// an iterator that goes on after it has ended
struct Flicker<I> {
    pieces: I,
    before_end: usize,
    ends: usize,
    /// pieces taken before the first end, and whether it was reached
    taken: Rc<Cell<(usize, bool)>>,
}
impl<I: Iterator> Iterator for Flicker<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        if self.before_end > 0 {
            self.before_end -= 1;
            self.taken.set((self.taken.get().0 + 1, false));
            return self.pieces.next();
        }
        self.taken.set((self.taken.get().0, true));
        if self.ends > 0 {
            self.ends -= 1;
            return None;
        }
        self.pieces.next()
    }
}

/// the iterator source delivers the concatenation of its pieces
fn iterator_case(prop: &'static str, mini: bool, rng: &mut Rng, st: &mut Stats) -> Case {
    PROP.set(prop);
    ledger::reset();
    ERRATIC.set(0);
    let p = policy(rng);
    let mut id = 0;
    let n = rng.below(12);
    let huge = if !mini && rng.chance(1, 200) { rng.below(n + 1) } else { usize::MAX };
    let pieces: Vec<Vec<Owned>> = (0..n)
        .map(|i| {
            let mut k = *rng.pick(&[0, 1, 2, 3, 9, 20]);
            if i == huge {
                let n = *rng.pick(&[150, 300, 1200, 4600, 9000, 75_000]);
                k = rng.range(n - n / 8, n);
                st.add("large_iterator_pieces", 1);
            }
            (0..k)
                .map(|_| {
                    id += 1;
                    Owned::make(id)
                })
                .collect()
        })
        .collect();
    let lens: Vec<usize> = pieces.iter().map(|p| p.len()).collect();
    let mut story = format!("iterator pieces {lens:?} with policy {p:?}");
    let (n, ends) = if n > 0 && rng.chance(1, 3) {
        st.add("iterators_that_go_on_after_their_end", 1);
        (rng.below(n), rng.range(1, 2))
    } else {
        (n, 0)
    };
    if ends > 0 {
        story += &format!(", ending {ends} time(s) after {n} piece(s), then going on");
    }
    let sh = Rc::new(RefCell::new(Shared {
        attempt: vec![],
        ended: Ended::Nothing,
        next_id: 0,
        finished: false,
        bad: None,
        trail: vec![],
        bytes_asked: 0,
        held: 0,
    }));
    let mut sim = Sim { sh, accepted: vec![], consumed: 0, faulted: false, advanced: false, finished: false, ends: BTreeSet::new() };
    let asked = Rc::new(Cell::new((0, false)));
    let r: R = (|| {
        let (mut buf, mut loader) =
            GenericSequenceBuilder::verif_new(Arc::new(p)).build(IteratorSource::<_, Owned>::new(Flicker {
                pieces: pieces.into_iter(),
                before_end: n,
                ends,
                taken: Rc::clone(&asked),
            }));
        let mut taken = 0;
        let mut next = 0u64;
        for _ in 0..n + 4 {
            let before = sim.prefix(&buf)?;
            if prop == "C17" && rng.chance(1, 4) {
                // given up before it began
                sim.faulted = true;
                drop(loader.load());
                sim.prefix(&buf)?;
                st.add("loads_never_polled", 1);
            }
            let mut fut = Box::pin(loader.load());
            let res = fut.as_mut().poll(&mut Context::from_waker(Waker::noop()));
            drop(fut);
            let info = match res {
                Poll::Ready(Ok(i)) => i,
                Poll::Ready(Err(_)) => return bad(&["C15"], "the iterator source failed"),
                Poll::Pending => return bad(&["C15"], "the iterator source suspended"),
            };
            let was = sim.finished;
            let (pieces, ended) = asked.get();
            for len in &lens[taken..pieces] {
                for _ in 0..*len {
                    next += 1;
                    sim.accepted.push(next);
                }
            }
            taken = pieces;
            sim.finished = ended;
            sim.report(&info, before, was, &buf, st)?;
            if rng.chance(1, 4) {
                loader.force_commit();
                sim.all(&buf, "after a forced commit")?;
            }
            if rng.chance(1, 4) {
                sim.advance(&mut buf, rng, st)?;
            }
        }
        if !sim.finished {
            return bad(&["C15"], format!("the source was asked {} times for {n} piece(s) and did not end", n + 4));
        }
        sim.all(&buf, "at the end")
    })();
    match r {
        Err(b) if b.tags.contains(&prop) => return Err(Viol(format!("{story}: {}", b.what))),
        Err(_) => {
            st.add("ended_by_another_property", 1);
            return Ok(());
        }
        Ok(()) => {}
    }
    if id > 1 {
        st.distinct((&lens, p));
    }
    st.add("iterator_sources", 1);
    Ok(())
}

// ---- C17: items whose release panics -----------------------------------------------------------
thread_local! {
    static FRAGILE: Cell<bool> = const { Cell::new(false) };
}
struct Fragile {
    id: u64,
    armed: Cell<bool>,
    _tok: Tok,
}
impl Drop for Fragile {
    fn drop(&mut self) {
        if self.armed.replace(false) && FRAGILE.get() && !std::thread::panicking() {
            std::panic::panic_any(Injected)
        }
    }
}

#[derive(Debug, Clone)]
enum Fate {
    Accept,
    /// cancel the request
    Fail,
    /// unwind out of the source
    Panic,
    /// hold the answer until the load is dropped
    Linger,
    Finish,
}
#[derive(Debug, Clone)]
struct FragileLoad {
    ask: usize,
    write: usize,
    /// write indices of the items whose release panics
    armed: Vec<usize>,
    /// shrink to this many (after all is written)
    shrink: Option<usize>,
    fate: Fate,
}
struct FragileSource {
    plan: Rc<RefCell<FragileLoad>>,
    next: Rc<Cell<u64>>,
    /// what the load wrote (ids), or what was wrong
    wrote: Rc<RefCell<Result<Vec<u64>, String>>>,
    shrinks_unwound: Rc<Cell<u64>>,
}
impl SequenceSource for FragileSource {
    type Item = Fragile;
    type Error = ();
    type Next<'a, C>
        = Pin<Box<dyn Future<Output = C::Result> + 'a>>
    where
        C: 'a + SequenceControl<Item = Fragile, Error = ()>;
    fn next<'a, C>(&'a mut self, control: C, _: usize) -> Self::Next<'a, C>
    where
        C: 'a + SequenceControl<Item = Fragile, Error = ()>,
    {
        Box::pin(async move {
            let plan = self.plan.borrow().clone();
            *self.wrote.borrow_mut() = Ok(vec![]);
            if let Fate::Finish = plan.fate {
                return control.finish();
            }
            let mut w = control.request_writer(plan.ask);
            for i in 0..plan.write {
                self.next.set(self.next.get() + 1);
                let item = Fragile {
                    id: self.next.get(),
                    armed: Cell::new(plan.armed.contains(&i)),
                    _tok: Tok::new(),
                };
                if let Err(item) = w.push_item(item) {
                    item.armed.set(false);
                    break;
                }
            }
            let ids = |s: &[Fragile]| s.iter().map(|i| i.id).collect::<Vec<_>>();
            let written = ids(w.as_slice());
            let mut left = written.clone();
            if let Some(to) = plan.shrink {
                let to = to.min(left.len());
                let unwound = guarded(|| w.shrink_to(to));
                if unwound.is_err() {
                    self.shrinks_unwound.set(self.shrinks_unwound.get() + 1);
                }
                // if it unwound, it may have stopped early
                let now = w.len();
                let fits = if unwound.is_ok() { now == to } else { now >= to && now <= left.len() };
                if !fits || ledger::double_releases() > 0 {
                    *self.wrote.borrow_mut() = Err(format!(
                        "shrinking {} items to {to} (unwound: {}) left {now}, {} released twice",
                        left.len(),
                        unwound.is_err(),
                        ledger::double_releases()
                    ));
                    unsafe { w.set_len(0) };
                    return w.cancel(());
                }
                left.truncate(now);
                let seen = ids(w.as_slice());
                if seen != left {
                    *self.wrote.borrow_mut() = Err(format!("shrinking {written:?} to {to} left {seen:?}"));
                }
            }
            if let Ok(w) = &mut *self.wrote.borrow_mut() {
                *w = left;
            }
            match plan.fate {
                Fate::Accept => w.advance(),
                Fate::Fail => w.cancel(()),
                Fate::Panic => std::panic::panic_any(Injected),
                _ => {
                    let r = w.advance();
                    std::future::pending::<()>().await;
                    r
                }
            }
        })
    }
}

/// wherever the release of an item unwinds, no item is released twice and what was accepted stays
fn fragile_case(mini: bool, rng: &mut Rng, st: &mut Stats) -> Case {
    ledger::reset();
    FRAGILE.set(true);
    ERRATIC.set(0);
    let p = policy(rng);
    let plan = Rc::new(RefCell::new(FragileLoad { ask: 0, write: 0, armed: vec![], shrink: None, fate: Fate::Accept }));
    let wrote = Rc::new(RefCell::new(Ok(vec![])));
    let shrinks_unwound = Rc::new(Cell::new(0));
    let src = FragileSource {
        plan: plan.clone(),
        next: Rc::new(Cell::new(0)),
        wrote: wrote.clone(),
        shrinks_unwound: shrinks_unwound.clone(),
    };
    let (buf, loader) = GenericSequenceBuilder::verif_new(Arc::new(p)).build(src);
    let (mut buf, mut loader) = (Some(buf), Some(loader));
    // accepted items; the first `hidden` of them, counted from the end, are not committed
    let (mut accepted, mut consumed, mut visible_to) = (Vec::<u64>::new(), 0, 0);
    let mut trail = vec![];
    let (mut unwound, mut loader_done) = (0, false);
    for _ in 0..rng.range(3, if mini { 8 } else { 14 }) {
        let fail = |trail: &Vec<String>, m: String| {
            FRAGILE.set(false);
            Err(Viol(format!("policy {p:?}: {}: {m}", trail.join("; "))))
        };
        match rng.below(6) {
            0..=2 if !loader_done => {
                let Some(loader) = &mut loader else { continue };
                let write = rng.below(7);
                let l = FragileLoad {
                    ask: rng.below(9),
                    write,
                    armed: (0..write).filter(|_| rng.chance(1, 5)).collect(),
                    shrink: rng.chance(1, 2).then(|| rng.below(write + 1)),
                    fate: match rng.below(12) {
                        0 | 1 => Fate::Fail,
                        2 | 3 => Fate::Panic,
                        4 | 5 => Fate::Linger,
                        6 if mini || rng.chance(1, 4) => Fate::Finish,
                        _ => Fate::Accept,
                    },
                };
                trail.push(format!("{l:?}"));
                *plan.borrow_mut() = l.clone();
                *wrote.borrow_mut() = Ok(vec![]);
                // a load first undoes what an abandoned one left, which may unwind
                let r = guarded(|| {
                    let mut fut = Box::pin(loader.load());
                    match fut.as_mut().poll(&mut Context::from_waker(Waker::noop())) {
                        Poll::Ready(Ok(i)) => Some((i.is_done(), i.uncommited())),
                        _ => None,
                    }
                });
                match &*wrote.borrow() {
                    Err(m) => return fail(&trail, m.clone()),
                    Ok(w) => match r {
                        Ok(Some((done, unc))) => {
                            if done {
                                visible_to = accepted.len();
                                loader_done = true;
                            } else if buf.is_some() {
                                // without a consumer, a commit releases the items and may unwind
                                accepted.extend(w);
                                if unc > accepted.len() {
                                    return fail(&trail, format!("{unc} uncommited items reported, {} accepted", accepted.len()));
                                }
                                visible_to = accepted.len() - unc;
                            }
                            st.add("fragile_loads_ok", 1);
                        }
                        Ok(None) => st.add("fragile_loads_given_up", 1),
                        Err(Caught::Injected) => unwound += 1,
                        Err(Caught::Code(m)) => return fail(&trail, m),
                        Err(Caught::Harness(m)) => panic!("{m}"),
                    },
                }
            }
            3 => {
                let Some(loader) = &mut loader else { continue };
                trail.push("forced commit".into());
                if guarded(|| loader.force_commit()).is_err() {
                    unwound += 1;
                    // the undoing unwound; what was not committed still is not, or is
                    let Some(buf) = &buf else { continue };
                    visible_to = consumed + buf.segments().map(|s| s.len()).sum::<usize>();
                } else {
                    visible_to = accepted.len();
                }
            }
            4 => {
                let Some(b) = &mut buf else { continue };
                let k = rng.below(visible_to - consumed + 1);
                trail.push(format!("advance {k}"));
                match guarded(|| b.advance(k)) {
                    Ok(_) => consumed += k,
                    Err(_) => {
                        // where it stopped is not specified
                        unwound += 1;
                        unwound += guarded(|| drop(buf.take())).is_err() as u64;
                    }
                }
            }
            _ => {
                if rng.chance(1, 6) {
                    trail.push("drop of one side".into());
                    let gone = if rng.chance(1, 2) { guarded(|| drop(buf.take())).is_err() } else { guarded(|| drop(loader.take())).is_err() };
                    unwound += gone as u64;
                }
            }
        }
        if ledger::double_releases() > 0 {
            return fail(&trail, format!("{} item(s) released more than once", ledger::double_releases()));
        }
        if let Some(buf) = &buf {
            let seen: Vec<u64> = buf.segments().flatten().map(|i| i.id).collect();
            if visible_to > accepted.len() || seen[..] != accepted[consumed..visible_to] {
                return fail(&trail, format!("the consumer sees {seen:?} of {accepted:?} ({consumed} consumed, {visible_to} visible)"));
            }
        }
        st.add("fragile_steps", 1);
    }
    for i in 0..2 {
        let gone = if (i == 0) == rng.chance(1, 2) || buf.is_none() { guarded(|| drop(loader.take())).is_err() } else { guarded(|| drop(buf.take())).is_err() };
        unwound += gone as u64;
    }
    unwound += guarded(|| drop((loader.take(), buf.take()))).is_err() as u64;
    st.add("items_whose_release_unwound", unwound + shrinks_unwound.get());
    st.add("shrinks_unwound", shrinks_unwound.get());
    // a release that unwinds may keep others from being released, but not release them again
    let settled = ledger::balanced();
    if let (Err(m), true) = (settled, ledger::double_releases() > 0 || unwound + shrinks_unwound.get() == 0) {
        return Err(Viol(format!("policy {p:?}: {}: {m}", trail.join("; "))));
    }
    st.distinct((p, trail));
    Ok(())
}

// ---- C19: threads ------------------------------------------------------------------------------
struct Shared19 {
    live: AtomicI64,
    double: AtomicUsize,
}
struct Cell19 {
    id: u64,
    boxed: Box<(u64, AtomicBool)>,
    sh: Arc<Shared19>,
}
impl Cell19 {
    fn new(id: u64, sh: &Arc<Shared19>) -> Self {
        sh.live.fetch_add(1, Ordering::Relaxed);
        Cell19 { id, boxed: Box::new((id, AtomicBool::new(true))), sh: Arc::clone(sh) }
    }
}
impl Drop for Cell19 {
    fn drop(&mut self) {
        self.sh.live.fetch_sub(1, Ordering::Relaxed);
        if !self.boxed.1.swap(false, Ordering::Relaxed) {
            self.sh.double.fetch_add(1, Ordering::Relaxed);
        }
    }
}

struct Feed {
    rng: Rng,
    next: u64,
    total: u64,
    piece: usize,
    sh: Arc<Shared19>,
}
struct FeedErr;
impl SequenceSource for Feed {
    type Item = Cell19;
    type Error = FeedErr;
    type Next<'a, C>
        = std::future::Ready<C::Result>
    where
        C: 'a + SequenceControl<Item = Cell19, Error = FeedErr>;
    fn next<'a, C>(&'a mut self, control: C, _: usize) -> Self::Next<'a, C>
    where
        C: 'a + SequenceControl<Item = Cell19, Error = FeedErr>,
    {
        if self.next == self.total {
            return std::future::ready(control.finish());
        }
        if self.rng.chance(1, 12) {
            return std::future::ready(control.cancel(FeedErr));
        }
        let n = self.rng.below(self.piece).min((self.total - self.next) as usize);
        let mut w = control.request_writer(n);
        for i in 0..n {
            let _ = w.push_item(Cell19::new(self.next + i as u64, &self.sh));
        }
        if self.rng.chance(1, 12) {
            return std::future::ready(w.cancel(FeedErr));
        }
        self.next += n as u64;
        std::future::ready(w.advance())
    }
}

fn threads_case(mini: bool, rng: &mut Rng, st: &mut Stats) -> Case {
    let sh = Arc::new(Shared19 { live: AtomicI64::new(0), double: AtomicUsize::new(0) });
    let total = if mini { rng.range(2, 6) } else { *rng.pick(&[5, 20, 60, 200, 600, 600, 3000]) } as u64;
    let piece = if mini { 5 } else { *rng.pick(&[2, 5, 5, 5, 60]) };
    let pace = if mini { 1 } else { *rng.pick(&[1, 30, 300, 1500]) };
    let pol = policy(rng);
    let feed = Feed { rng: rng.fork(), next: 0, total, piece, sh: Arc::clone(&sh) };
    let (buf, loader) = GenericSequenceBuilder::verif_new(Arc::new(pol)).build(feed);
    // with `publish` the loader announces how many items it committed; without, nothing but the
    // stream itself synchronises the sides
    let publish = rng.chance(1, 2);
    let committed = AtomicUsize::new(0);
    let gone = AtomicBool::new(false);
    let failed: Mutex<Option<String>> = Mutex::new(None);
    let fail = |m: String| {
        failed.lock().unwrap().get_or_insert(m);
    };
    // whichever side is dropped first
    let loader_stops_early = rng.chance(1, 4);
    let consumer_stops_early = rng.chance(1, 3);
    let readers = if rng.chance(1, 2) { 0 } else { rng.range(2, 3) };
    let (r1, r2) = (rng.fork(), rng.fork());
    let enums = AtomicUsize::new(0);
    let grew = AtomicUsize::new(0);
    let shape = Mutex::new(vec![]);
    let barrier = std::sync::Barrier::new(2);
    std::thread::scope(|s| {
        let (committed, gone, fail, enums, grew, shape, barrier) = (&committed, &gone, &fail, &enums, &grew, &shape, &barrier);
        s.spawn(move || {
            let mut rng = r1;
            let mut loader = loader;
            let mut seen = 0;
            let mut sum = 0u64;
            let mut accepted = 0u64;
            barrier.wait();
            let stop = if loader_stops_early { rng.below(total as usize + 1) as u64 } else { u64::MAX };
            loop {
                if rng.chance(1, 6) {
                    loader.force_commit();
                    sum = accepted;
                    if publish {
                        committed.store(sum as usize, Ordering::Release);
                    }
                }
                let mut fut = Box::pin(loader.load());
                let r = fut.as_mut().poll(&mut Context::from_waker(Waker::noop()));
                drop(fut);
                match r {
                    Poll::Ready(Ok(info)) => {
                        sum += info.commited() as u64;
                        accepted = sum + info.uncommited() as u64;
                        if publish {
                            committed.store(sum as usize, Ordering::Release);
                        }
                        if info.is_done() {
                            break;
                        }
                    }
                    Poll::Ready(Err(FeedErr)) => {}
                    Poll::Pending => {
                        fail("a load is pending although its source never suspends".into());
                        break;
                    }
                }
                seen += 1;
                if accepted >= stop || seen > 10_000 {
                    break;
                }
                for _ in 0..rng.below(pace) {
                    std::hint::spin_loop();
                }
                if mini && rng.chance(1, 3) {
                    std::thread::yield_now();
                }
            }
            drop(loader);
            gone.store(true, Ordering::Release);
        });
        s.spawn(move || {
            let mut rng = r2;
            let mut buf = buf;
            let mut consumed = 0usize;
            let mut longest = 0usize;
            barrier.wait();
            let rounds = if mini { 4 } else if consumer_stops_early { rng.range(1, 10) } else { 2000 };
            let mut counts = vec![];
            for _ in 0..rounds {
                let ended = gone.load(Ordering::Acquire);
                let look = |buf: &_, longest: usize| -> Result<usize, String> {
                    fn count<Bf: SequenceBuffer<Segment = [Cell19]>>(buf: &Bf, consumed: usize) -> Result<usize, String> {
                        let mut at = consumed;
                        for seg in buf.segments() {
                            for c in seg {
                                if c.id != at as u64 || c.boxed.0 != c.id || !c.boxed.1.load(Ordering::Relaxed) {
                                    return Err(format!("item {at} reads as {} / {}", c.id, c.boxed.0));
                                }
                                at += 1;
                            }
                        }
                        Ok(at)
                    }
                    let c = committed.load(Ordering::Acquire);
                    let at = count(buf, consumed)?;
                    enums.fetch_add(1, Ordering::Relaxed);
                    if publish && at < c {
                        return Err(format!("an enumeration saw {at} items although {c} had been committed before"));
                    }
                    if at < longest {
                        return Err(format!("an enumeration saw {at} items, an earlier one {longest}"));
                    }
                    if at as u64 > total {
                        return Err(format!("{at} of {total} items"));
                    }
                    Ok(at)
                };
                let mut most = longest;
                if readers > 0 && (mini || rng.chance(1, 10)) {
                    let b = &buf;
                    let look = &look;
                    let res: Vec<_> = std::thread::scope(|s2| {
                        let hs: Vec<_> = (0..readers).map(|_| s2.spawn(move || look(b, longest))).collect();
                        hs.into_iter().map(|h| h.join()).collect()
                    });
                    for r in res {
                        match r {
                            Ok(Ok(n)) => most = most.max(n),
                            Ok(Err(m)) => fail(m),
                            Err(_) => fail("a reader panicked".into()),
                        }
                    }
                }
                match look(&buf, most) {
                    Ok(n) => {
                        if n > longest {
                            grew.fetch_add(1, Ordering::Relaxed);
                            counts.push(n);
                        }
                        longest = n;
                    }
                    Err(m) => {
                        fail(m);
                        break;
                    }
                }
                if rng.chance(1, 3) {
                    let n = rng.below(longest - consumed + 3);
                    let avail_min = longest - consumed;
                    let left = buf.advance(n);
                    if left > n.saturating_sub(avail_min) {
                        fail(format!("advancing by {n} with {avail_min} visible left {left}"));
                        break;
                    }
                    consumed += n - left;
                    longest = longest.max(consumed);
                }
                if ended {
                    break;
                }
                for _ in 0..rng.below(pace) {
                    std::hint::spin_loop();
                }
                if mini && rng.chance(1, 2) {
                    std::thread::yield_now();
                }
            }
            shape.lock().unwrap().extend(counts);
            drop(buf);
        });
    });
    if let Some(m) = failed.into_inner().unwrap() {
        return Err(Viol(format!("policy {pol:?}: {m}")));
    }
    let (l, d) = (sh.live.load(Ordering::SeqCst), sh.double.load(Ordering::SeqCst));
    if l != 0 || d != 0 {
        return Err(Viol(format!("{l} items never released, {d} released twice (policy {pol:?})")));
    }
    st.add("enumerations", enums.into_inner() as u64);
    st.add("enumerations_that_grew", grew.into_inner() as u64);
    let shape = shape.into_inner().unwrap();
    if !shape.is_empty() {
        // what the consumer saw at which of its enumerations: the interleaving
        st.distinct((total, pol, &shape));
        st.sample(|| format!("{total} items, policy {pol:?}: the consumer saw the stream grow to {shape:?}"));
    }
    Ok(())
}

fn main() {
    let a = Args::parse();
    let mini = a.mini;
    let mut r = Report::new(&a);
    let prop: &'static str = Box::leak(a.prop.clone().into_boxed_str());
    match prop {
        "C15" => {
            r.part("histories", a.cases(80_000, 25), |g, s| stream_case("C15", mini, g, s));
            r.part("iterator", a.cases(30_000, 5), |g, s| iterator_case("C15", mini, g, s));
            if !mini {
                r.part("long", a.cases(80, 0), |g, s| long_case("C15", g, s));
                r.part("bulk", a.cases(3000, 0), |g, s| bulk_case("C15", g, s));
            }
            r.finish(20_000, &["bulk_reports", "long_histories", "large_pieces", "loads_ok", "forced_commits", "advances", "suspended_loads_observed", "ends_reported", "iterator_sources", "large_iterator_pieces", "iterators_that_go_on_after_their_end"]);
        }
        "C16" => {
            r.part("histories", a.cases(80_000, 25), |g, s| stream_case("C16", mini, g, s));
            r.part("iterator", a.cases(30_000, 5), |g, s| iterator_case("C16", mini, g, s));
            if !mini {
                r.part("long", a.cases(80, 0), |g, s| long_case("C16", g, s));
                r.part("bulk", a.cases(3000, 0), |g, s| bulk_case("C16", g, s));
            }
            r.finish(20_000, &["bulk_reports", "long_histories", "large_pieces", "reports_with_uncommited", "reports_with_commited", "ends_reported", "loads_after_the_end", "loads_failed", "loads_dropped", "iterators_that_go_on_after_their_end"]);
        }
        "C17" => {
            r.part("histories", a.cases(100_000, 30), |g, s| stream_case("C17", mini, g, s));
            if !mini {
                r.part("long", a.cases(80, 0), |g, s| long_case("C17", g, s));
            }
            r.part("iterator", a.cases(30_000, 5), |g, s| iterator_case("C17", mini, g, s));
            r.part("fragile", a.cases(30_000, 25), |g, s| fragile_case(mini, g, s));
            r.finish(20_000, &["items_whose_release_unwound", "shrinks_unwound", "fragile_loads_given_up", "loads_never_polled", "long_histories", "large_pieces", "loads_failed", "loads_dropped", "loads_panicked", "items_tracked"]);
        }
        "C18" => {
            r.part("histories", a.cases(80_000, 25), |g, s| stream_case("C18", mini, g, s));
            if !mini {
                r.part("long", a.cases(80, 0), |g, s| long_case("C18", g, s));
                r.part("bulk", a.cases(3000, 0), |g, s| bulk_case("C18", g, s));
            }
            r.finish(20_000, &["bulk_advances", "long_histories", "large_pieces", "advances", "advances_past_the_visible", "enumerations_exhausted", "enumerations_resumed"]);
        }
        "C32" => {
            r.part("histories", a.cases(80_000, 25), |g, s| stream_case("C32", mini, g, s));
            if !mini {
                r.part("long", a.cases(80, 0), |g, s| long_case("C32", g, s));
            }
            r.finish(5_000, &["release_checks_with_pieces_left_behind", "release_checks_without_consumer", "loads_without_consumer", "advances", "long_histories"]);
        }
        "C19" => {
            r.part("threads", a.cases(20_000, 4), |g, s| threads_case(mini, g, s));
            r.finish(2_000, &["enumerations", "enumerations_that_grew"]);
        }
        p => panic!("unknown property {p}"),
    }
}
