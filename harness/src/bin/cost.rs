//! C31: work (sequence operations, allocations, allocated bytes, CPU time) of flat workloads for two
//! sizes; it must grow no faster than the size. C32: what flat workloads that consume as they go hold
//! in memory must not grow with the size.
use parcom_core::measured::Meter;
use parcom_core::{ParserOnce, SegmentStream, Sequence};
use parcom_internals::future::notify::Notify;
use parcom_internals::shortvec::ShortVec;
use parcom_metrics::end_of_line::{CRLF, LF};
use parcom_metrics::LineColumnMeter;
use parcom_parsers::primitive::{any_char, any_item, the_char, the_item};
use parcom_parsers::{IterativeParserExtension, ParserExtension};
use parcom_runners::default_runner::DefaultSequence;
use parcom_sequence_core::{
    LoadInfo, SequenceBuffer, SequenceBuilder, SequenceLoader,
};
use parcom_sequence_sources::iterator_source::IteratorSource;
use parcom_sequence_sources::utf8_validator::Utf8Validator;
use parcom_sequences::generic::{GenericSequenceBuffer, GenericSequenceBuilder};
use parcom_verif::driver::{Args, Case, Report, Stats, Viol};
use parcom_verif::exec::{now, run};
use parcom_verif::flat::{self, live, Exact, Item, Life, Shape, Source, LIVES, SHAPES};
use parcom_verif::tseq::{Doc, Items, TSeq, Text};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll, Waker};

// ---- what is counted ------------------------------------------------------------------------------
struct Counting;
thread_local! {
    static CALLS: Cell<u64> = const { Cell::new(0) };
    static BYTES: Cell<u64> = const { Cell::new(0) };
    static HELD: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
}
fn took(n: usize) {
    CALLS.set(CALLS.get() + 1);
    BYTES.set(BYTES.get() + n as u64);
    HELD.set(HELD.get() + n as i64);
    PEAK.set(PEAK.get().max(HELD.get()));
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        took(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        took(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        HELD.set(HELD.get() - l.size() as i64);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        HELD.set(HELD.get() - l.size() as i64);
        took(n);
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static ALLOCATOR: Counting = Counting;

#[repr(C)]
struct TimeSpec(i64, i64);
extern "C" {
    fn clock_gettime(id: i32, t: *mut TimeSpec) -> i32;
}
/// CPU time of this thread, in ns
fn cpu() -> u64 {
    let mut t = TimeSpec(0, 0);
    // SAFETY: t is a valid timespec on 64-bit Linux; 3 is CLOCK_THREAD_CPUTIME_ID
    let r = unsafe { clock_gettime(3, &mut t) };
    assert_eq!(r, 0);
    t.0 as u64 * 1_000_000_000 + t.1 as u64
}

#[derive(Debug, Clone, Copy)]
struct Cost {
    ops: u64,
    calls: u64,
    bytes: u64,
    peak: i64,
    nanos: u64,
}

/// prepared work; returns the number of sequence operations
type Work = Box<dyn FnOnce() -> Result<u64, Viol>>;
struct Workload {
    name: String,
    /// holds no more for more input
    constant: bool,
    prepare: Box<dyn Fn(usize) -> Work + Send + Sync>,
}

fn measure(w: &Workload, n: usize) -> Result<Cost, Viol> {
    let work = (w.prepare)(n);
    let (calls, bytes, held) = (CALLS.get(), BYTES.get(), HELD.get());
    PEAK.set(held);
    let t = cpu();
    let ops = work()?;
    Ok(Cost {
        ops,
        nanos: cpu() - t,
        calls: CALLS.get() - calls,
        bytes: BYTES.get() - bytes,
        peak: PEAK.get() - held,
    })
}

// ---- workloads ------------------------------------------------------------------------------------
fn work(f: impl FnOnce() -> Result<u64, Viol> + 'static) -> Work {
    Box::new(f)
}

#[derive(Clone, Copy, Debug)]
enum Kind {
    Str,
    Slice,
    Pieces,
    ItemPieces,
}

/// a fold over the input that keeps nothing, over plain matchers (those of the harness record)
macro_rules! keep_nothing {
    ($n:expr, $s:expr, $the:expr, $any:expr) => {{
        let p = $the
            .or($any)
            .map(|v| Box::new(v))
            .repeat()
            .map_each(|v| Box::new((v, [0u64; 8])))
            .scan(0usize, |c, _| {
                *c += 1;
                *c
            })
            .fold(0usize, |a, c| a.max(c));
        match run(p.parse_once($s)).done()? {
            Ok((m, _)) if m == $n => {}
            Ok((m, _)) => return Err(Viol(format!("folded {m} of {} items", $n))),
            Err(_) => return Err(Viol("the fold failed".into())),
        }
    }};
}

enum What {
    Shape(Shape),
    Nothing,
}

fn parse(what: What, kind: Kind, n: usize) -> Work {
    let chars = match what {
        What::Shape(s) => flat::input(s, n, 5),
        What::Nothing => vec!['a'; n],
    };
    let text: String = chars.iter().collect();
    let cuts = |width: fn(char) -> usize| {
        let mut at = 0;
        let mut c = vec![];
        for (i, x) in chars.iter().enumerate() {
            // pieces of 1 to 4 elements and empty ones
            if i % 7 != 3 {
                c.push(at);
            }
            if i % 13 == 0 {
                c.push(at);
            }
            at += width(*x);
        }
        c
    };
    let (tc, ic) = match kind {
        Kind::Pieces => (cuts(char::len_utf8), vec![]),
        Kind::ItemPieces => (vec![], cuts(|_| 1)),
        _ => (vec![], vec![]),
    };
    let td = Doc::<Text>::new(&chars, tc, 0, 1);
    let id = Doc::<Items>::new(&chars, ic, 0, 1);
    td.set_limit(u64::MAX);
    id.set_limit(u64::MAX);
    work(move || {
        flat::marks();
        // SAFETY: nothing outlives this closure, which owns both
        let s: &'static str = unsafe { &*(text.as_str() as *const str) };
        let v: &'static [char] = unsafe { &*(chars.as_slice() as *const [char]) };
        match (what, kind) {
            (What::Shape(sh), Kind::Str) => flat::parse(sh, n, s)?,
            (What::Shape(sh), Kind::Slice) => flat::parse(sh, n, v)?,
            (What::Shape(sh), Kind::Pieces) => flat::parse(sh, n, TSeq::new(&td))?,
            (What::Shape(sh), Kind::ItemPieces) => flat::parse(sh, n, TSeq::new(&id))?,
            (What::Nothing, Kind::Str) => keep_nothing!(n, s, the_char('b'), any_char()),
            (What::Nothing, Kind::Slice) => keep_nothing!(n, v, the_item('b'), any_item()),
            (What::Nothing, Kind::Pieces) => keep_nothing!(n, TSeq::new(&td), the_char('b'), any_char()),
            (What::Nothing, Kind::ItemPieces) => keep_nothing!(n, TSeq::new(&id), the_item('b'), any_item()),
        }
        Ok(td.ops() + id.ops())
    })
}

fn ready<F: Future>(fut: F) -> Result<F::Output, Viol> {
    let mut fut = std::pin::pin!(fut);
    match fut.as_mut().poll(&mut Context::from_waker(Waker::noop())) {
        Poll::Ready(v) => Ok(v),
        Poll::Pending => Err(Viol("a load of ready data is pending".into())),
    }
}
fn load<L: SequenceLoader>(l: &mut L) -> Result<LoadInfo, Viol> {
    ready(l.load())?.map_err(|_| Viol("a load of ready data failed".into()))
}
type Loader = <GenericSequenceBuilder<Exact> as SequenceBuilder<Source>>::Loader;
fn stream(left: usize, size: usize) -> (GenericSequenceBuffer<Item>, Loader) {
    GenericSequenceBuilder::verif_new(Arc::new(Exact)).build(Source { left, size })
}

/// consume as it is produced; `look`: enumerate before each advance
fn follow(n: usize, size: usize, step: usize, look: bool) -> Result<u64, Viol> {
    let (mut buf, mut loader) = stream(n, size);
    for i in 0..n {
        load(&mut loader)?;
        if i % 3 == 0 {
            loader.force_commit();
        }
        if look {
            buf.segments().for_each(drop);
        }
        while buf.advance(step) == 0 {}
    }
    load(&mut loader)?;
    while buf.advance(1) == 0 {}
    Ok(0)
}

/// nobody reads
fn unread(n: usize, committing: bool) -> Result<u64, Viol> {
    let (buf, mut loader) = stream(n, 3);
    drop(buf);
    for _ in 0..n {
        load(&mut loader)?;
        if committing {
            loader.force_commit();
        }
    }
    Ok(0)
}

// the on-demand sequence over the real buffer
struct NoLoader;
impl SequenceLoader for NoLoader {
    type Length = usize;
    type Segment = [Item];
    type Error = ();
    type Load<'a> = std::future::Ready<Result<LoadInfo, ()>>;
    fn force_commit(&mut self) {}
    fn load(&mut self) -> Self::Load<'_> {
        std::future::ready(Ok(LoadInfo::done(0)))
    }
}
struct Builder;
impl SequenceBuilder<Source> for Builder {
    type Length = usize;
    type Segment = [Item];
    type Buffer = GenericSequenceBuffer<Item>;
    type Loader = NoLoader;
    fn build(&self, _: Source) -> (Self::Buffer, NoLoader) {
        unreachable!()
    }
}
type OnDemand = DefaultSequence<Source, Builder>;

#[derive(Clone, Copy, Debug)]
enum Demand {
    /// read all that waits
    Read,
    /// advance element by element over all that waits
    Advance,
    /// advance over everything at once
    AdvanceAll,
    /// read and advance as it arrives
    Follow,
    /// wait for each piece, then advance over it
    Wait,
    /// an advance over everything waits for each piece
    WaitAll,
    /// one enumeration waits for each piece
    ReadWaiting,
}
fn on_demand(d: Demand, n: usize) -> Result<u64, Viol> {
    let size = 2;
    let (buf, mut loader) = stream(n, size);
    let mut seq = OnDemand::new(buf, NoLoader);
    let (signal, done) = seq.verif_signals();
    let mut append = || -> Result<(), Viol> {
        load(&mut loader)?;
        loader.force_commit();
        signal.send();
        Ok(())
    };
    let stall = || Viol("stays suspended".into());
    /// poll until nothing but a signal can help
    fn settle<F: Future>(mut f: Pin<&mut F>) -> Poll<F::Output> {
        let cx = &mut Context::from_waker(Waker::noop());
        if let Poll::Ready(v) = f.as_mut().poll(cx) {
            return Poll::Ready(v);
        }
        f.poll(cx)
    }
    match d {
        Demand::Read | Demand::Advance | Demand::AdvanceAll => {
            for _ in 0..n {
                append()?;
            }
            done.store(true, Ordering::SeqCst);
            signal.send();
            match d {
                Demand::Read => {
                    let mut segs = seq.segments();
                    let mut k = 0;
                    while let Some(s) = now(segs.next(0)) {
                        k += s.len();
                    }
                    if k != n * size {
                        return Err(Viol(format!("{k} elements read")));
                    }
                }
                Demand::Advance => {
                    for _ in 0..n * size {
                        seq = now(seq.advance(1));
                    }
                }
                _ => seq = now(seq.advance(n * size)),
            }
        }
        Demand::Follow => {
            for _ in 0..n {
                append()?;
                {
                    let mut segs = seq.segments();
                    let _ = now(segs.next(0));
                }
                seq = now(seq.advance(size));
            }
        }
        Demand::Wait => {
            for _ in 0..n {
                {
                    let mut segs = seq.segments();
                    let mut f = std::pin::pin!(segs.next(0));
                    if settle(f.as_mut()).is_ready() {
                        return Err(Viol("a piece before it was appended".into()));
                    }
                    append()?;
                    if settle(f.as_mut()).is_pending() {
                        return Err(stall());
                    }
                }
                seq = now(seq.advance(size));
            }
        }
        Demand::WaitAll => {
            let mut f = Box::pin(seq.advance(n * size));
            for _ in 0..n {
                if settle(f.as_mut()).is_ready() {
                    return Err(Viol("advanced too early".into()));
                }
                append()?;
            }
            match settle(f.as_mut()) {
                Poll::Ready(s) => seq = s,
                Poll::Pending => return Err(stall()),
            }
        }
        Demand::ReadWaiting => {
            let mut segs = seq.segments();
            for _ in 0..n {
                let mut f = std::pin::pin!(segs.next(0));
                if settle(f.as_mut()).is_ready() {
                    return Err(Viol("a piece before it was appended".into()));
                }
                append()?;
                if settle(f.as_mut()).is_pending() {
                    return Err(stall());
                }
            }
        }
    }
    drop(seq);
    Ok(0)
}

/// validate n pieces of the given size; consumed as they come, or all at the end
fn validate(n: usize, size: usize, follow: bool) -> Work {
    let unit = "aé漢😀\r\n".as_bytes();
    let total = n * size / unit.len() * unit.len();
    let pieces = (0..n).map(move |i| {
        let (a, b) = (i * size, ((i + 1) * size).min(total));
        (a..b.max(a)).map(|k| unit[k % unit.len()]).collect::<Vec<u8>>()
    });
    work(move || {
        let source = Utf8Validator::new(IteratorSource::new(pieces));
        let (mut buf, mut loader) = GenericSequenceBuilder::verif_new(Arc::new(Exact)).build(source);
        let mut seen = 0;
        loop {
            let i = load(&mut loader)?;
            if i.is_done() {
                break;
            }
            if follow {
                loop {
                    let Some(k) = buf.segments().next().map(|s| s.len()) else { break };
                    buf.advance(k);
                    seen += k;
                }
            }
        }
        let rest: usize = buf.segments().map(|s| s.len()).sum();
        if seen + rest != total {
            return Err(Viol(format!("{} of {total} bytes were delivered", seen + rest)));
        }
        Ok(0)
    })
}
/// everything in one piece
fn validate_one(n: usize) -> Work {
    validate(1, n, false)
}

fn iterate(n: usize, follow: bool) -> Work {
    work(move || {
        let source = IteratorSource::new((0..n).map(|i| [i as u64; 3]));
        let (mut buf, mut loader) = GenericSequenceBuilder::verif_new(Arc::new(Exact)).build(source);
        while !load(&mut loader)?.is_done() {
            if follow {
                buf.advance(usize::MAX);
            }
        }
        Ok(0)
    })
}

fn vector<const N: usize>(n: usize, reserve: bool) -> Work {
    work(move || {
        let mut v = ShortVec::<(u64, u8), N>::new();
        for i in 0..n {
            if reserve {
                v.reserve(i + 1);
            }
            v.push((i as u64, 1));
        }
        if v.as_slice().len() != n {
            return Err(Viol("items are missing".into()));
        }
        while v.pop().is_some() {}
        for i in 0..n {
            v.push((i as u64, 1));
        }
        Ok(0)
    })
}

fn notify(n: usize, at_once: bool) -> Work {
    work(move || {
        let s = Notify::new();
        let cx = &mut Context::from_waker(Waker::noop());
        if at_once {
            let mut all: Vec<_> = (0..n).map(|_| Box::pin(s.wait())).collect();
            if all.iter_mut().any(|w| w.as_mut().poll(cx).is_ready()) {
                return Err(Viol("a wait completed early".into()));
            }
            s.send();
            if all.iter_mut().any(|w| w.as_mut().poll(cx).is_pending()) {
                return Err(Viol("a wait did not complete".into()));
            }
        } else {
            for _ in 0..n {
                let mut w = std::pin::pin!(s.wait());
                let early = w.as_mut().poll(cx).is_ready();
                s.send();
                if early || w.as_mut().poll(cx).is_pending() {
                    return Err(Viol("a wait completed at the wrong time".into()));
                }
            }
        }
        Ok(0)
    })
}

struct Own(AtomicBool);
impl std::task::Wake for Own {
    fn wake(self: Arc<Self>) {
        self.0.store(true, Ordering::Relaxed)
    }
}

/// many waits at once, each with its own waker, polled once or twice
fn notify_own(n: usize, again: bool) -> Work {
    work(move || {
        let s = Notify::new();
        let all: Vec<_> = (0..n).map(|_| Arc::new(Own(AtomicBool::new(false)))).collect();
        let mut waits: Vec<_> = (0..n).map(|_| Box::pin(s.wait())).collect();
        for _ in 0..1 + again as usize {
            for (w, own) in waits.iter_mut().zip(&all) {
                let waker = Waker::from(own.clone());
                if w.as_mut().poll(&mut Context::from_waker(&waker)).is_ready() {
                    return Err(Viol("a wait completed early".into()));
                }
            }
        }
        s.send();
        if all.iter().any(|o| !o.0.load(Ordering::Relaxed)) {
            return Err(Viol("a waker was not woken".into()));
        }
        Ok(0)
    })
}

fn meter(n: usize, whole: bool, crlf: bool) -> Work {
    let unit = "aé\n漢\r\n😀\r";
    let text = unit.repeat(n / unit.chars().count() + 1);
    work(move || {
        fn go<M: Meter<str>>(mut m: M, text: &str, whole: bool) -> u64 {
            if whole {
                m = m.advance(text);
            } else {
                let mut b = [0; 4];
                for c in text.chars() {
                    m = m.advance(c.encode_utf8(&mut b));
                }
            }
            std::hint::black_box(m.metrics());
            0
        }
        Ok(if crlf {
            go(LineColumnMeter::<CRLF>::default(), &text, whole)
        } else {
            go(LineColumnMeter::<LF>::default(), &text, whole)
        })
    })
}

fn workloads() -> Vec<Workload> {
    let mut all: Vec<Workload> = vec![];
    let mut add = |name: String, constant: bool, prepare: Box<dyn Fn(usize) -> Work + Send + Sync>| {
        all.push(Workload { name, constant, prepare })
    };
    for kind in [Kind::Str, Kind::Slice, Kind::Pieces, Kind::ItemPieces] {
        for s in SHAPES {
            if s != Shape::Abandoned {
                add(format!("{s:?} over {kind:?}"), false, Box::new(move |n| parse(What::Shape(s), kind, n)));
            }
        }
        add(format!("fold that keeps nothing over {kind:?}"), true, Box::new(move |n| parse(What::Nothing, kind, n)));
    }
    for l in LIVES {
        if l != Life::Together {
            add(format!("stream: {l:?}"), false, Box::new(move |n| work(move || live(l, n).map(|_| 0))));
        }
    }
    for look in [false, true] {
        for step in [1, 3, 4, 5] {
            add(format!("stream consumed as produced, {step} at a time, looking: {look}"), true, Box::new(move |n| {
                work(move || follow(n, 4, step, look))
            }));
        }
        add(format!("stream of empty pieces, looking: {look}"), true, Box::new(move |n| {
            work(move || {
                let (mut buf, mut loader) = stream(n, 0);
                for _ in 0..n {
                    load(&mut loader)?;
                    loader.force_commit();
                    if look {
                        buf.segments().for_each(drop);
                    }
                    buf.advance(0);
                }
                Ok(0)
            })
        }));
        add(format!("stream without a reader, committing: {look}"), true, Box::new(move |n| work(move || unread(n, look))));
        add(format!("iterator source, followed: {look}"), look, Box::new(move |n| iterate(n, look)));
        for (size, name) in [(1, "1"), (3, "3"), (8, "8"), (13, "13")] {
            add(format!("validation of pieces of {name}, followed: {look}"), look, Box::new(move |n| validate(n, size, look)));
        }
        add(format!("waits, at once: {look}"), !look, Box::new(move |n| notify(n, look)));
        add(format!("waits with their own wakers, polled again: {look}"), false, Box::new(move |n| notify_own(n, look)));
        add(format!("metering, whole: {look}"), true, Box::new(move |n| meter(n, look, true)));
        add(format!("metering LF, whole: {look}"), true, Box::new(move |n| meter(n, look, false)));
        add(format!("vector, inline 0, reserving: {look}"), false, Box::new(move |n| vector::<0>(n, look)));
        add(format!("vector, inline 1, reserving: {look}"), false, Box::new(move |n| vector::<1>(n, look)));
        add(format!("vector, inline 100, reserving: {look}"), false, Box::new(move |n| vector::<100>(n, look)));
    }
    add("validation of one piece".into(), false, Box::new(validate_one));
    for d in [
        Demand::Read,
        Demand::Advance,
        Demand::AdvanceAll,
        Demand::Follow,
        Demand::Wait,
        Demand::WaitAll,
        Demand::ReadWaiting,
    ] {
        let constant = matches!(d, Demand::Follow | Demand::Wait);
        add(format!("on demand: {d:?}"), constant, Box::new(move |n| work(move || on_demand(d, n))));
    }
    all
}

// ---- verdicts -------------------------------------------------------------------------------------
const SMALL: usize = 2_000;

/// compared at a middle size first, so that work far from linear is seen before it takes minutes
fn cost_case(w: &Workload, factor: usize, st: &mut Stats) -> Case {
    let mut base = measure(w, SMALL)?;
    for _ in 0..2 {
        base.nanos = base.nanos.max(measure(w, SMALL)?.nanos);
    }
    compare(w, base, 8, st)?;
    let big = compare(w, base, factor, st)?;
    st.add("sequence_operations", big.ops);
    st.add("allocations", big.calls);
    st.add("cpu_ms", big.nanos / 1_000_000);
    st.max("max_elements", (SMALL * factor) as u64);
    st.distinct(&w.name);
    st.sample(|| format!("{}: {base:?} for {SMALL}, {big:?} for {}", w.name, SMALL * factor));
    Ok(())
}

fn compare(w: &Workload, base: Cost, factor: usize, st: &mut Stats) -> Result<Cost, Viol> {
    let n = SMALL * factor;
    let f = factor as u64;
    let mut big = measure(w, n)?;
    let too_much = |what: &str, small: u64, large: u64| {
        Err(Viol(format!(
            "{}: {small} {what} for {SMALL} elements, {large} for {n}",
            w.name
        )))
    };
    if big.ops > base.ops * f * 5 / 4 + 200 {
        return too_much("operations on the input", base.ops, big.ops);
    }
    if big.calls > base.calls * f * 3 / 2 + 500 {
        return too_much("allocations", base.calls, big.calls);
    }
    // capacities may double just before the end
    if big.bytes > base.bytes * f * 5 / 2 + (64 << 10) {
        return too_much("allocated bytes", base.bytes, big.bytes);
    }
    // far from linear, not just slow: other work on the machine disturbs this measurement
    let limit = base.nanos.max(200_000) * f * 4;
    for _ in 0..3 {
        if big.nanos <= limit {
            break;
        }
        big.nanos = big.nanos.min(measure(w, n)?.nanos);
    }
    if big.nanos > limit {
        return too_much("ns of CPU time", base.nanos, big.nanos);
    }
    st.max("max_time_ratio_percent_of_linear", big.nanos * 100 / (base.nanos * f));
    Ok(big)
}

fn held_case(w: &Workload, factor: usize, st: &mut Stats) -> Case {
    let base = measure(w, SMALL)?;
    let n = SMALL * factor;
    let big = measure(w, n)?;
    if big.peak > base.peak * 3 / 2 + 4096 {
        return Err(Viol(format!(
            "{}: holds up to {} bytes with {SMALL} elements, {} with {n}",
            w.name, base.peak, big.peak
        )));
    }
    st.max("max_held_bytes", big.peak as u64);
    st.max("max_elements", n as u64);
    st.add("allocations", big.calls);
    st.add("long_runs", 1);
    st.distinct(&w.name);
    st.sample(|| format!("{}: at most {} bytes with {SMALL} elements, {} with {n}", w.name, base.peak, big.peak));
    Ok(())
}

fn main() {
    let a = Args::parse();
    let mut r = Report::new(&a);
    let deep = a.scale > 4.0;
    let factor = if deep { 128 } else { 32 };
    let c31 = match a.prop.as_str() {
        "C31" => true,
        "C32" => false,
        p => panic!("unknown property {p}"),
    };
    let all: Vec<Workload> = workloads().into_iter().filter(|w| c31 || w.constant).collect();
    let next = AtomicUsize::new(0);
    r.part("flat", all.len() as u64, |_, st| {
        let i = next.fetch_add(1, Ordering::Relaxed);
        let w = &all[i % all.len()];
        if c31 {
            cost_case(w, factor, st)
        } else {
            held_case(w, factor, st)
        }
    });
    if c31 {
        r.finish(100, &["sequence_operations", "allocations", "cpu_ms"]);
    } else {
        r.finish(25, &["long_runs", "allocations"]);
    }
}
