//! C20, C21: the validating byte source over cut, suspending and failing byte sources, observed both
//! through a recording control (every delivered piece) and through the real stream buffer.
use parcom_sequence_core::{
    BufferWriter, SequenceBuffer, SequenceBuilder, SequenceControl, SequenceLoader, SequenceSource,
};
use parcom_sequence_sources::iterator_source::IteratorSource;
use parcom_sequence_sources::utf8_validator::{Utf8ValidationError, Utf8Validator};
use parcom_sequences::generic::GenericSequenceBuilder;
use parcom_sequences::BufferStrategy;
use parcom_verif::driver::{Args, Case, Injected, Report, Stats, Viol};
use parcom_verif::rng::Rng;
use std::cell::RefCell;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::Arc;
use std::task::{Context, Poll, Waker};

fn viol<T>(m: impl Into<String>) -> Result<T, Viol> {
    Err(Viol(m.into()))
}

// ---- the underlying byte source ------------------------------------------------------------------
#[derive(Debug, Clone, Copy, PartialEq)]
enum Plan {
    /// suspend, hand over the next piece
    Piece,
    ErrorBefore,
    ErrorAfter,
}

struct Bytes {
    pieces: Vec<Vec<u8>>,
    pos: usize,
    rng: Rng,
    hostile: bool,
    /// works before its future is polled
    eager: bool,
    sh: Rc<RefCell<Sh>>,
}
#[derive(Default)]
struct Sh {
    bad: Option<String>,
    errors: u64,
    suspended: u64,
    trail: Vec<String>,
    last_error: u64,
    finished: bool,
}
struct Suspend(usize);
impl Future for Suspend {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.0 == 0 {
            return Poll::Ready(());
        }
        self.0 -= 1;
        cx.waker().wake_by_ref();
        Poll::Pending
    }
}
#[derive(Debug)]
struct IoErr(u64);

impl Bytes {
    async fn run<C>(&mut self, control: C) -> C::Result
    where
        C: SequenceControl<Item = u8, Error = IoErr>,
    {
        let sh = Rc::clone(&self.sh);
        let rng = &mut self.rng;
        let hostile = self.hostile;
        macro_rules! maybe_suspend {
            () => {
                if hostile && rng.chance(1, 4) {
                    sh.borrow_mut().suspended += 1;
                    Suspend(rng.range(1, 2)).await;
                }
            };
        }
        maybe_suspend!();
        let plan = match rng.below(8) {
            0 if hostile => Plan::ErrorBefore,
            1 if hostile => Plan::ErrorAfter,
            _ => Plan::Piece,
        };
        let fail = || {
            let mut s = sh.borrow_mut();
            s.errors += 1;
            s.last_error = s.errors;
            IoErr(s.errors)
        };
        if plan == Plan::ErrorBefore {
            sh.borrow_mut().trail.push("io error".into());
            let r = control.cancel(fail());
            maybe_suspend!();
            return r;
        }
        let Some(piece) = self.pieces.get(self.pos) else {
            let r = control.finish();
            maybe_suspend!();
            let mut s = sh.borrow_mut();
            s.finished = true;
            s.trail.push("end of source".into());
            return r;
        };
        if hostile && rng.chance(1, 60) {
            // there is no such room, however much the validator adds for what it holds back
            sh.borrow_mut().trail.push("asks for the impossible".into());
            EXPECT_PANIC.set(true);
            let ask = usize::MAX - rng.below(5);
            let w = control.request_writer(ask);
            let m = format!("asked for {ask} bytes: capacity {}, {} already written", w.capacity(), w.len());
            sh.borrow_mut().bad.get_or_insert(m);
            return w.cancel(fail());
        }
        let ask = piece.len() + if rng.chance(1, 4) { rng.below(4) } else { 0 };
        let mut w = control.request_writer(ask);
        if w.capacity() < ask || w.len() != 0 {
            let m = format!("asked for {ask} bytes: capacity {}, {} already written", w.capacity(), w.len());
            sh.borrow_mut().bad.get_or_insert(m);
            return w.cancel(fail());
        }
        for (i, b) in piece.iter().enumerate() {
            match rng.below(5) {
                0 => unsafe {
                    w.as_mut_ptr().add(i).write(*b);
                    w.set_len(i + 1);
                },
                1 => {
                    w.spare_capacity()[0].write(*b);
                    unsafe { w.set_len(i + 1) };
                }
                2 => {
                    // write a wrong byte, then repair it
                    let _ = w.push_item(b'?');
                    if w.len() == i + 1 {
                        w.as_mut_slice()[i] = *b;
                    }
                }
                _ => {
                    if w.push_item(*b).is_err() {
                        sh.borrow_mut().bad.get_or_insert(format!("byte {i} of {ask} refused"));
                        return w.cancel(fail());
                    }
                }
            }
            if rng.chance(1, 8) {
                maybe_suspend!();
            }
        }
        if w.len() < w.capacity() && rng.chance(1, 6) {
            let _ = w.push_item(b'!');
            w.shrink_to(piece.len());
        }
        if w.as_slice() != &piece[..] {
            let m = format!("the writer holds {:?} after {piece:?} was written", w.as_slice());
            sh.borrow_mut().bad.get_or_insert(m);
            return w.cancel(fail());
        }
        maybe_suspend!();
        if hostile && rng.chance(1, 60) {
            sh.borrow_mut().trail.push("panics after writing".into());
            EXPECT_PANIC.set(true);
            std::panic::panic_any(Injected);
        }
        if plan == Plan::ErrorAfter {
            sh.borrow_mut().trail.push("io error after writing".into());
            let r = w.cancel(fail());
            maybe_suspend!();
            return r;
        }
        // it may be abandoned with its answer in hand; then the same piece comes again
        let r = w.advance();
        maybe_suspend!();
        sh.borrow_mut().trail.push(format!("{piece:02x?}"));
        self.pos += 1;
        r
    }
}

impl SequenceSource for Bytes {
    type Item = u8;
    type Error = IoErr;
    type Next<'a, C>
        = Pin<Box<dyn Future<Output = C::Result> + 'a>>
    where
        C: 'a + SequenceControl<Item = u8, Error = IoErr>;
    fn next<'a, C>(&'a mut self, control: C, _: usize) -> Self::Next<'a, C>
    where
        C: 'a + SequenceControl<Item = u8, Error = IoErr>,
    {
        let eager = self.eager;
        let mut fut = Box::pin(self.run(control));
        if eager {
            if let Poll::Ready(r) = fut.as_mut().poll(&mut Context::from_waker(Waker::noop())) {
                return Box::pin(std::future::ready(r));
            }
        }
        fut
    }
}

// ---- a control that records every delivered piece --------------------------------------------------
struct Rec {
    extra: usize,
}
enum Got<E> {
    Piece(Vec<u8>),
    Finish,
    Cancel(E),
}
struct RecWriter {
    buf: Vec<u8>,
    len: usize,
}
type VErr = Utf8ValidationError<IoErr>;
impl SequenceControl for Rec {
    type Item = u8;
    type Result = Got<VErr>;
    type Error = VErr;
    type Writer = RecWriter;
    fn request_writer(self, n: usize) -> RecWriter {
        RecWriter { buf: vec![0xEE; n.saturating_add(self.extra)], len: 0 }
    }
    fn cancel(self, err: VErr) -> Got<VErr> {
        Got::Cancel(err)
    }
    fn finish(self) -> Got<VErr> {
        Got::Finish
    }
}
impl BufferWriter for RecWriter {
    type Segment = [u8];
    type Item = u8;
    type Result = Got<VErr>;
    type Error = VErr;
    fn capacity(&self) -> usize {
        self.buf.len()
    }
    fn len(&self) -> usize {
        self.len
    }
    fn as_ptr(&self) -> *const u8 {
        self.buf.as_ptr()
    }
    fn as_mut_ptr(&mut self) -> *mut u8 {
        self.buf.as_mut_ptr()
    }
    unsafe fn set_len(&mut self, n: usize) {
        assert!(n <= self.buf.len(), "set_len({n}) beyond the capacity {}", self.buf.len());
        self.len = n;
    }
    fn advance(mut self) -> Got<VErr> {
        self.buf.truncate(self.len);
        Got::Piece(self.buf)
    }
    fn cancel(self, err: VErr) -> Got<VErr> {
        Got::Cancel(err)
    }
}

/// what a load did
enum Step {
    Delivered,
    End,
    Invalid,
    Io(u64),
    Dropped,
    Panicked,
}

trait Probe {
    /// one load; `drop_at`: drop it after that many polls
    fn step(&mut self, drop_at: Option<usize>, rng: &mut Rng) -> Result<Step, Viol>;
    /// all bytes delivered so far and visible
    fn delivered(&mut self) -> Result<Vec<u8>, Viol>;
    /// make everything delivered visible
    fn settle(&mut self);
}

thread_local! {
    /// the source is about to unwind
    static EXPECT_PANIC: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
fn drive<F: Future>(fut: F, drop_at: Option<usize>) -> Result<Option<F::Output>, Viol> {
    let mut fut = Box::pin(fut);
    for i in 0..100_000 {
        if Some(i) == drop_at {
            return Ok(None);
        }
        EXPECT_PANIC.set(false);
        let poll = || fut.as_mut().poll(&mut Context::from_waker(Waker::noop()));
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(poll)) {
            Ok(Poll::Ready(r)) => return Ok(Some(r)),
            Ok(Poll::Pending) => {}
            Err(_) if EXPECT_PANIC.get() => return Ok(None),
            Err(e) => std::panic::resume_unwind(e),
        }
    }
    viol("a load does not end")
}

struct Direct<S: SequenceSource<Item = u8>> {
    v: Utf8Validator<S>,
    out: Vec<u8>,
}
impl Probe for Direct<Bytes> {
    fn step(&mut self, drop_at: Option<usize>, rng: &mut Rng) -> Result<Step, Viol> {
        let c = Rec { extra: rng.below(4) };
        Ok(match drive(self.v.next(c, 0), drop_at)? {
            None if EXPECT_PANIC.get() => Step::Panicked,
            None => Step::Dropped,
            Some(Got::Piece(p)) => {
                if std::str::from_utf8(&p).is_err() {
                    return viol(format!("the delivered piece {p:02x?} is not valid UTF-8"));
                }
                self.out.extend(p);
                Step::Delivered
            }
            Some(Got::Finish) => Step::End,
            Some(Got::Cancel(Utf8ValidationError::InvalidSequence)) => Step::Invalid,
            Some(Got::Cancel(Utf8ValidationError::Inner(IoErr(e)))) => Step::Io(e),
        })
    }
    fn delivered(&mut self) -> Result<Vec<u8>, Viol> {
        Ok(self.out.clone())
    }
    fn settle(&mut self) {}
}

struct Pol(usize, usize);
impl BufferStrategy for Pol {
    fn calc_capacity(&self, min: usize) -> usize {
        (min.saturating_mul(self.0) / 2).saturating_add(self.1)
    }
}

struct Stream<Bf, L> {
    buf: Bf,
    loader: L,
    consumed: Vec<u8>,
    advance: bool,
}
impl<Bf, L> Probe for Stream<Bf, L>
where
    Bf: SequenceBuffer<Segment = [u8], Length = usize>,
    L: SequenceLoader<Error = VErr>,
{
    fn step(&mut self, drop_at: Option<usize>, rng: &mut Rng) -> Result<Step, Viol> {
        if rng.chance(1, 8) {
            self.loader.force_commit();
        }
        if self.advance && rng.chance(1, 5) {
            let seg = self.buf.segments().next().map(|s| s.to_vec());
            if let Some(s) = seg {
                self.buf.advance(s.len());
                self.consumed.extend(s);
            }
        }
        Ok(match drive(self.loader.load(), drop_at)? {
            None if EXPECT_PANIC.get() => Step::Panicked,
            None => Step::Dropped,
            Some(Ok(i)) if i.is_done() => Step::End,
            Some(Ok(_)) => Step::Delivered,
            Some(Err(Utf8ValidationError::InvalidSequence)) => Step::Invalid,
            Some(Err(Utf8ValidationError::Inner(IoErr(e)))) => Step::Io(e),
        })
    }
    fn delivered(&mut self) -> Result<Vec<u8>, Viol> {
        let mut out = self.consumed.clone();
        for s in self.buf.segments() {
            if std::str::from_utf8(s).is_err() {
                return viol(format!("the visible segment {s:02x?} is not valid UTF-8"));
            }
            out.extend(s);
        }
        Ok(out)
    }
    fn settle(&mut self) {
        self.loader.force_commit();
    }
}

// ---- one run ----------------------------------------------------------------------------------------
fn observe(
    p: &mut dyn Probe,
    sh: &Rc<RefCell<Sh>>,
    input: &[u8],
    hostile: bool,
    rng: &mut Rng,
    st: &mut Stats,
) -> Case {
    let valid = std::str::from_utf8(input).is_ok();
    let prefix_ok = |d: &[u8]| -> Case {
        if !input.starts_with(d) {
            return viol(format!("delivered {d:02x?} is not a prefix of the input"));
        }
        if let Err(e) = std::str::from_utf8(d) {
            return viol(format!("delivered {d:02x?} is not valid UTF-8: {e}"));
        }
        Ok(())
    };
    let mut after_error = 0;
    let mut at_error: Option<Vec<u8>> = None;
    for i in 0.. {
        if i > 20_000 {
            return viol("the stream never ends");
        }
        let drop_at = if hostile && rng.chance(1, 6) { Some(rng.below(3)) } else { None };
        let step = p.step(drop_at, rng)?;
        if let Some(b) = sh.borrow_mut().bad.take() {
            return viol(b);
        }
        st.add("loads", 1);
        let d = p.delivered()?;
        if at_error.is_none() {
            prefix_ok(&d)?;
        }
        match step {
            Step::Delivered => {}
            Step::Dropped => st.add("loads_dropped", 1),
            Step::Panicked => st.add("loads_panicked", 1),
            Step::Io(e) => {
                st.add("io_errors", 1);
                if e != sh.borrow().last_error {
                    return viol(format!("io error {e} instead of {}", sh.borrow().last_error));
                }
            }
            Step::Invalid => {
                if valid {
                    return viol("an invalid sequence was reported for valid text");
                }
                if at_error.is_none() {
                    p.settle();
                    let d = p.delivered()?;
                    prefix_ok(&d)?;
                    st.add("invalid_reported", 1);
                    if !d.is_empty() {
                        st.add("invalid_after_delivery", 1);
                    }
                    at_error = Some(d);
                }
                after_error += 1;
                if after_error > 3 && sh.borrow().finished || after_error > 30 {
                    break;
                }
            }
            Step::End => {
                if !sh.borrow().finished {
                    return viol("a normal end was reported before the source ended");
                }
                if !valid {
                    return viol("a normal end was reported for invalid text");
                }
                let d = p.delivered()?;
                if d != input {
                    return viol(format!("at the end {d:02x?} was delivered"));
                }
                st.add("ends", 1);
                break;
            }
        }
        if after_error > 0 {
            after_error += 1;
            if after_error > 300 {
                break;
            }
        }
    }
    st.add("suspensions", sh.borrow().suspended);
    Ok(())
}

fn run(input: &[u8], cuts: &[usize], hostile: bool, direct: bool, rng: &mut Rng, st: &mut Stats) -> Case {
    let mut pieces = vec![];
    let mut at = 0;
    for c in cuts.iter().chain([&input.len()]) {
        pieces.push(input[at..*c].to_vec());
        at = *c;
    }
    let sh = Rc::new(RefCell::new(Sh::default()));
    let src = Bytes { pieces, pos: 0, rng: rng.fork(), hostile, eager: !direct && rng.chance(1, 3), sh: Rc::clone(&sh) };
    let r = if direct {
        let mut p = Direct { v: Utf8Validator::new(src), out: vec![] };
        observe(&mut p, &sh, input, hostile, rng, st)
    } else {
        let pol = Pol(rng.below(4), rng.below(12));
        let (buf, loader) = GenericSequenceBuilder::verif_new(Arc::new(pol)).build(Utf8Validator::new(src));
        let mut p = Stream { buf, loader, consumed: vec![], advance: rng.chance(1, 2) };
        observe(&mut p, &sh, input, hostile, rng, st)
    };
    r.map_err(|v| {
        Viol(format!(
            "bytes {input:02x?} ({}) {}: {}; source: {}",
            match std::str::from_utf8(input) {
                Ok(s) => format!("valid, {s:?}"),
                Err(e) => format!("invalid: {e}"),
            },
            if direct { "through a recording control" } else { "through a stream" },
            v.0,
            sh.borrow().trail.join(", ")
        ))
    })
}

/// the iterator source as the underlying source
fn over_iterator(input: &[u8], cuts: &[usize], rng: &mut Rng, st: &mut Stats) -> Case {
    let mut pieces: Vec<Vec<u8>> = vec![];
    let mut at = 0;
    for c in cuts.iter().chain([&input.len()]) {
        pieces.push(input[at..*c].to_vec());
        at = *c;
    }
    let n = pieces.len();
    let pol = Pol(rng.below(4), rng.below(12));
    let v = Utf8Validator::new(IteratorSource::<_, u8>::new(pieces));
    let (buf, mut loader) = GenericSequenceBuilder::verif_new(Arc::new(pol)).build(v);
    let mut invalid = false;
    for _ in 0..n + 3 {
        let Some(r) = drive(loader.load(), None)? else { unreachable!() };
        match r {
            Ok(i) if i.is_done() => {
                let got: Vec<u8> = buf.segments().flatten().copied().collect();
                if std::str::from_utf8(input).is_err() {
                    return viol(format!("bytes {input:02x?} cut at {cuts:?}: a normal end for invalid text"));
                }
                if got != input {
                    return viol(format!("bytes {input:02x?} cut at {cuts:?}: delivered {got:02x?}"));
                }
                st.add("ends", 1);
                return Ok(());
            }
            Ok(_) => {}
            Err(Utf8ValidationError::InvalidSequence) => {
                if std::str::from_utf8(input).is_ok() {
                    return viol(format!("bytes {input:02x?} cut at {cuts:?}: invalid sequence reported for valid text"));
                }
                invalid = true;
            }
            Err(Utf8ValidationError::Inner(_)) => return viol("an error out of nowhere"),
        }
    }
    if !invalid {
        return viol(format!("bytes {input:02x?} cut at {cuts:?}: no error and no end"));
    }
    Ok(())
}

const EDGES: [char; 20] = [
    '\0', 'a', '\u{7f}', '\u{80}', 'é', '\u{7ff}', '\u{800}', 'あ', '漢', '\u{d7ff}', '\u{e000}', '\u{feff}',
    '\u{fffd}', '\u{ffff}', '\u{10000}', '😀', '\u{3ffff}', '\u{fffff}', '\u{100000}', '\u{10ffff}',
];
const BAD: [&[u8]; 24] = [
    b"\x80", b"\xbf", b"\xc0\x80", b"\xc1\xbf", b"\xc2", b"\xc2A", b"\xdf", b"\xe0\x80\x80", b"\xe0\x9f\xbf",
    b"\xe1\x80", b"\xe3\x81A", b"\xed\xa0\x80", b"\xed\xbf\xbf", b"\xef", b"\xf0\x80\x80\x80", b"\xf0\x8f\xbf\xbf",
    b"\xf0\x9f", b"\xf0\x9f\x98", b"\xf0\x9f\x98A", b"\xf4\x90\x80\x80", b"\xf5\x80\x80\x80", b"\xfe", b"\xff",
    b"\xf8\x88\x80\x80\x80",
];

fn text(rng: &mut Rng, n: usize) -> String {
    (0..n)
        .map(|_| match rng.below(4) {
            0 | 1 => *rng.pick(&EDGES),
            2 => *rng.pick(&['a', 'é', '漢', '😀']),
            _ => loop {
                if let Some(c) = char::from_u32(rng.below(0x110000) as u32) {
                    break c;
                }
            },
        })
        .collect()
}

/// texts of one kind of characters with few or no others between
fn plain(rng: &mut Rng, n: usize) -> String {
    let kind = *rng.pick(&[
        &['a', 'b', ' ', '\n', '\0', '\u{7f}'][..],
        &['a', 'b', ' ', '\n', '\0', '\u{7f}'],
        &['é', '\u{80}', '\u{7ff}'],
        &['漢', '\u{800}', '\u{ffff}'],
        &['😀', '\u{10000}', '\u{10ffff}'],
    ]);
    let others = if rng.chance(1, 2) { 0 } else { *rng.pick(&[8, 30, 100]) };
    (0..n)
        .map(|_| {
            if others > 0 && rng.chance(1, others) {
                *rng.pick(&['a', 'é', '漢', '😀'])
            } else {
                *rng.pick(kind)
            }
        })
        .collect()
}

fn bytes(valid: bool, n: usize, rng: &mut Rng) -> Vec<u8> {
    let mut b = if rng.chance(1, 3) { plain(rng, n) } else { text(rng, n) }.into_bytes();
    if valid {
        return b;
    }
    loop {
        match rng.below(6) {
            0 => {
                // stop inside a character
                let extra = text(rng, 1).into_bytes();
                let k = rng.below(extra.len()).max(1).min(extra.len());
                b.extend(&extra[..k]);
            }
            1 if !b.is_empty() => {
                let i = rng.below(b.len());
                b[i] = rng.next() as u8;
            }
            2 if !b.is_empty() => {
                b.remove(rng.below(b.len()));
            }
            3 => {
                let x = rng.next() as u8;
                b.insert(rng.below(b.len() + 1), x);
            }
            4 => b.extend(*rng.pick(&BAD)),
            _ => {
                let at = rng.below(b.len() + 1);
                let x = *rng.pick(&BAD);
                b.splice(at..at, x.iter().copied());
            }
        }
        if std::str::from_utf8(&b).is_err() {
            return b;
        }
        if b.len() > 200 + 4 * n {
            b.clear();
        }
    }
}

fn cuts(len: usize, rng: &mut Rng) -> Vec<usize> {
    match rng.below(6) {
        0 => (1..len.max(1)).collect(),
        1 => vec![],
        _ => {
            let mut c: Vec<usize> = (0..rng.below(len + 3)).map(|_| rng.below(len + 1)).collect();
            c.sort();
            c
        }
    }
}

fn random_case(valid: bool, rng: &mut Rng, st: &mut Stats) -> Case {
    let n = if rng.chance(1, 8) { rng.below(100) } else { rng.below(8) };
    let input = bytes(valid, n, rng);
    let c = cuts(input.len(), rng);
    judged(input, c, rng, st)
}

/// long texts in large pieces or in many small ones
fn long_case(valid: bool, rng: &mut Rng, st: &mut Stats) -> Case {
    let (input, c) = if rng.chance(1, 2) {
        let n = *rng.pick(&[100, 300, 2000, 30_000, 70_000]);
        let n = rng.range(n / 2, n);
        let input = bytes(valid, n, rng);
        let mut c: Vec<usize> = (0..rng.below(6)).map(|_| rng.below(input.len() + 1)).collect();
        c.sort();
        st.add("large_pieces", 1);
        (input, c)
    } else {
        let n = rng.range(60, 600);
        let input = bytes(valid, n, rng);
        let step = rng.range(1, 4);
        let mut c = vec![];
        let mut at = 0;
        while at < input.len() {
            c.push(at);
            at += rng.below(step + 1).max(rng.below(2));
        }
        st.add("long_histories", 1);
        (input, c)
    };
    judged(input, c, rng, st)
}

fn judged(input: Vec<u8>, c: Vec<usize>, rng: &mut Rng, st: &mut Stats) -> Case {
    let hostile = rng.chance(1, 2);
    let direct = rng.chance(1, 2);
    if rng.chance(1, 8) {
        over_iterator(&input, &c, rng, st)?;
    } else {
        run(&input, &c, hostile, direct, rng, st)?;
    }
    if input.len() > 1 && st.distinct((&input, &c, hostile)) && st.want_sample() && input.len() > 5 {
        st.sample(|| format!("{input:02x?} cut at {c:?}{}", if hostile { " with errors, suspensions and dropped loads" } else { "" }));
    }
    Ok(())
}

/// every string of up to `n` bytes over an alphabet that separates all classes of bytes, every cut
const ALPHA: [u8; 19] = [
    0x41, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc2, 0xdf, 0xe0, 0xe1, 0xed, 0xef, 0xf0, 0xf1, 0xf4, 0xf5,
];

fn word(mut i: usize) -> Vec<u8> {
    let mut len = 0;
    let mut size = 1;
    while i >= size {
        i -= size;
        size *= ALPHA.len();
        len += 1;
    }
    (0..len)
        .map(|_| {
            let b = ALPHA[i % ALPHA.len()];
            i /= ALPHA.len();
            b
        })
        .collect()
}

fn every_cut(input: &[u8], rng: &mut Rng, st: &mut Stats) -> Case {
    let n = input.len().saturating_sub(1);
    for mask in 0..1usize << n {
        let c: Vec<usize> = (0..n).filter(|i| mask >> i & 1 == 1).map(|i| i + 1).collect();
        run(input, &c, false, mask % 2 == 0, rng, st)?;
        st.distinct((input, &c));
    }
    Ok(())
}

fn words_case(valid: bool, i: usize, rng: &mut Rng, st: &mut Stats) -> Case {
    let w = word(i);
    if std::str::from_utf8(&w).is_ok() != valid {
        return Ok(());
    }
    st.add("exhaustive_words", 1);
    every_cut(&w, rng, st)
}

/// all sequences of up to three characters of all widths, every cut
fn chars_case(i: usize, rng: &mut Rng, st: &mut Stats) -> Case {
    let cs = ['a', 'é', '漢', '😀'];
    let (mut i, mut len, mut size) = (i, 0, 1);
    while i >= size {
        i -= size;
        size *= 4;
        len += 1;
    }
    let s: String = (0..len)
        .map(|_| {
            let c = cs[i % 4];
            i /= 4;
            c
        })
        .collect();
    every_cut(s.as_bytes(), rng, st)
}

/// every character, each cut at several places
fn char_sweep(block: u32, rng: &mut Rng, st: &mut Stats) -> Case {
    let mut cs: Vec<char> = (block * 1024..(block + 1) * 1024).filter_map(char::from_u32).collect();
    for _ in 0..cs.len() {
        let (i, j) = (rng.below(cs.len()), rng.below(cs.len()));
        cs.swap(i, j);
    }
    for part in cs.chunks(64) {
        let s: String = part.iter().collect();
        for k in 0..4 {
            let mut c = vec![];
            let mut at = 0;
            for ch in part {
                let n = ch.len_utf8();
                if k == 3 {
                    c.extend(at + 1..=at + n);
                } else if n > k + 1 {
                    c.push(at + k + 1);
                }
                at += n;
            }
            run(s.as_bytes(), &c, false, rng.chance(1, 2), rng, st)?;
        }
    }
    st.add("swept_characters", cs.len() as u64);
    Ok(())
}

/// every pair of bytes as the start of a sequence, alone, continued and followed by other text
fn byte_sweep(block: usize, rng: &mut Rng, st: &mut Stats) -> Case {
    let lead = block as u8;
    for b in 0..=255u8 {
        for _ in 0..4 {
            let mut w = vec![];
            if rng.chance(1, 2) {
                w.extend(text(rng, 2).bytes());
            }
            w.extend([lead, b]);
            for _ in 0..rng.below(4) {
                w.push(match rng.below(4) {
                    0 => rng.next() as u8,
                    _ => 0x80 + rng.below(64) as u8,
                });
            }
            if rng.chance(1, 2) {
                w.extend(text(rng, 2).bytes());
            }
            if std::str::from_utf8(&w).is_ok() {
                continue;
            }
            let c = cuts(w.len(), rng);
            run(&w, &c, false, rng.chance(1, 2), rng, st)?;
            st.add("swept_sequences", 1);
        }
    }
    Ok(())
}

fn main() {
    let a = Args::parse();
    let mut r = Report::new(&a);
    let valid = match a.prop.as_str() {
        "C20" => true,
        "C21" => false,
        p => panic!("unknown property {p}"),
    };
    let k = ALPHA.len();
    let words = 1 + k + k * k + k * k * k + if a.scale > 1.5 || !valid { k * k * k * k } else { 0 };
    use std::sync::atomic::{AtomicUsize, Ordering};
    let next = AtomicUsize::new(0);
    if !a.mini && a.scale > 0.5 {
        r.part("words", words as u64, |g, s| words_case(valid, next.fetch_add(1, Ordering::Relaxed), g, s));
        if valid {
            let next = AtomicUsize::new(0);
            r.part("chars", 1 + 4 + 16 + 64, |g, s| chars_case(next.fetch_add(1, Ordering::Relaxed), g, s));
        }
        let next = AtomicUsize::new(0);
        if valid {
            r.part("sweep", 1088, |g, s| char_sweep(next.fetch_add(1, Ordering::Relaxed) as u32 % 1088, g, s));
        } else {
            r.part("sweep", 256, |g, s| byte_sweep(next.fetch_add(1, Ordering::Relaxed) % 256, g, s));
        }
    }
    r.part("random", a.cases(150_000, 40), |g, s| random_case(valid, g, s));
    if !a.mini {
        r.part("long", a.cases(1000, 0), |g, s| long_case(valid, g, s));
    }
    if valid {
        r.finish(50_000, &["large_pieces", "long_histories", "ends", "io_errors", "suspensions", "loads_dropped", "loads_panicked"]);
    } else {
        r.finish(50_000, &["large_pieces", "long_histories", "invalid_reported", "invalid_after_delivery", "io_errors", "suspensions", "loads_dropped", "loads_panicked"]);
    }
}
