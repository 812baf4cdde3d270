//! C22: the on-demand sequence against a scripted producer whose steps (append, declare complete,
//! signal) are injected between the buffer operations inside a poll, and against a producer thread.
use parcom_core::{ParserOnce, SegmentStream, Sequence};
use parcom_internals::future::notify::Notify;
use parcom_parsers::primitive::{any, atom, the};
use parcom_parsers::ParserExtension;
use parcom_runners::default_runner::DefaultSequence;
use parcom_sequence_core::{
    BufferWriter, LoadInfo, SequenceBuffer, SequenceBuilder, SequenceControl, SequenceLoader,
    SequenceSource,
};
use parcom_sequences::generic::{GenericSequenceBuffer, GenericSequenceBuilder};
use parcom_sequences::BufferStrategy;
use parcom_verif::driver::{Args, Case, Report, Stats, Viol};
use parcom_verif::rng::Rng;
use std::cell::{Cell, RefCell};
use std::collections::VecDeque;
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};
use std::time::{Duration, Instant};

// ---- the real buffer, filled through the real loader --------------------------------------------
#[derive(Clone, Copy)]
struct Exact;
impl BufferStrategy for Exact {
    fn calc_capacity(&self, min: usize) -> usize {
        min
    }
}
struct Pieces(Arc<Mutex<VecDeque<Vec<u32>>>>);
impl SequenceSource for Pieces {
    type Item = u32;
    type Error = ();
    type Next<'a, C>
        = std::future::Ready<C::Result>
    where
        C: 'a + SequenceControl<Item = u32, Error = ()>;
    fn next<'a, C>(&'a mut self, control: C, _: usize) -> Self::Next<'a, C>
    where
        C: 'a + SequenceControl<Item = u32, Error = ()>,
    {
        match self.0.lock().unwrap().pop_front() {
            None => std::future::ready(control.finish()),
            Some(p) => {
                let mut w = control.request_writer(p.len());
                for x in p {
                    w.push_item(x).expect("room for what was asked");
                }
                std::future::ready(w.advance())
            }
        }
    }
}
type RealLoader = <GenericSequenceBuilder<Exact> as SequenceBuilder<Pieces>>::Loader;
type RealBuffer = GenericSequenceBuffer<u32>;

struct Filler {
    queue: Arc<Mutex<VecDeque<Vec<u32>>>>,
    loader: RealLoader,
}
impl Filler {
    fn new() -> (RealBuffer, Filler) {
        let queue = Arc::new(Mutex::new(VecDeque::new()));
        let (b, loader) =
            GenericSequenceBuilder::verif_new(Arc::new(Exact)).build(Pieces(Arc::clone(&queue)));
        (b, Filler { queue, loader })
    }
    fn append(&mut self, p: Vec<u32>) {
        self.queue.lock().unwrap().push_back(p);
        self.load();
        self.loader.force_commit();
    }
    fn load(&mut self) {
        let mut f = std::pin::pin!(self.loader.load());
        match f.as_mut().poll(&mut Context::from_waker(Waker::noop())) {
            Poll::Ready(Ok(_)) => {}
            _ => panic!("a load of ready data failed"),
        }
    }
}

/// stands where the loader would be; the producer keeps the real one
struct NoLoader;
impl SequenceLoader for NoLoader {
    type Length = usize;
    type Segment = [u32];
    type Error = ();
    type Load<'a> = std::future::Ready<Result<LoadInfo, ()>>;
    fn force_commit(&mut self) {}
    fn load(&mut self) -> Self::Load<'_> {
        std::future::ready(Ok(LoadInfo::done(0)))
    }
}

// ---- scripted producer ---------------------------------------------------------------------------
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Step {
    /// append a piece of this many elements
    Append(usize),
    Done,
    Signal,
}

#[derive(Default)]
struct World {
    filler: Option<Filler>,
    script: VecDeque<(usize, Step)>,
    /// interruption points passed since the last step
    since: usize,
    points: usize,
    appended: u32,
    done: bool,
    signalled: u32,
    signalled_done: bool,
    /// steps run while an operation was inside a poll
    inside: usize,
    polling: bool,
    signals: Option<(Arc<Notify>, Arc<AtomicBool>)>,
    log: Vec<String>,
}
thread_local! {
    static WORLD: RefCell<World> = RefCell::default();
}
fn with<R>(f: impl FnOnce(&mut World) -> R) -> R {
    WORLD.with(|w| f(&mut w.borrow_mut()))
}

fn perform(s: Step) {
    let n = with(|w| {
        w.since = 0;
        if w.polling {
            w.inside += 1;
        }
        let at = w.points;
        w.log.push(format!("{s:?}@{at}{}", if w.polling { "" } else { " (idle)" }));
        match s {
            Step::Append(n) => {
                let p = (w.appended..w.appended + n as u32).collect();
                w.appended += n as u32;
                w.filler.as_mut().unwrap().append(p);
                None
            }
            Step::Done => {
                w.done = true;
                w.signals.as_ref().unwrap().1.store(true, Ordering::SeqCst);
                None
            }
            Step::Signal => {
                w.signalled = w.appended;
                w.signalled_done = w.done;
                Some(Arc::clone(&w.signals.as_ref().unwrap().0))
            }
        }
    });
    if let Some(n) = n {
        n.send();
    }
}

/// an interruption point: producer steps that are due run here
fn point() {
    with(|w| {
        w.points += 1;
        w.since += 1;
    });
    loop {
        let due = with(|w| match w.script.front() {
            Some((gap, s)) if w.since > *gap => {
                let s = *s;
                w.script.pop_front();
                Some(s)
            }
            _ => None,
        });
        match due {
            Some(s) => {
                perform(s);
                // a following step with gap 0 runs at the same point
                with(|w| w.since += 1);
            }
            None => return,
        }
    }
}

struct HookBuffer(RealBuffer);
struct HookIter<'a>(<RealBuffer as SequenceBuffer>::Iter<'a>);
impl<'a> Iterator for HookIter<'a> {
    type Item = &'a [u32];
    fn next(&mut self) -> Option<&'a [u32]> {
        point();
        let r = self.0.next();
        point();
        r
    }
}
impl SequenceBuffer for HookBuffer {
    type Length = usize;
    type Segment = [u32];
    type Iter<'a> = HookIter<'a>;
    fn advance(&mut self, n: usize) -> usize {
        point();
        let r = self.0.advance(n);
        point();
        r
    }
    fn segments(&self) -> HookIter<'_> {
        point();
        let r = HookIter(self.0.segments());
        point();
        r
    }
}
struct HookBuilder;
impl SequenceBuilder<Pieces> for HookBuilder {
    type Length = usize;
    type Segment = [u32];
    type Buffer = HookBuffer;
    type Loader = NoLoader;
    fn build(&self, _: Pieces) -> (HookBuffer, NoLoader) {
        unimplemented!()
    }
}
type HookSeq = DefaultSequence<Pieces, HookBuilder>;

/// waking is an interruption point too
struct HookWake {
    woken: AtomicBool,
    hooks: bool,
}
impl Wake for HookWake {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref()
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.woken.store(true, Ordering::SeqCst);
        if self.hooks {
            point();
        }
    }
}

type Seq = Box<dyn FnOnce(HookSeq) -> Pin<Box<dyn Future<Output = Result<HookSeq, ()>>>>>;

/// `p`, then `q`
fn then<Q>(p: Seq, q: Q) -> Seq
where
    Q: ParserOnce<HookSeq, Output = ()> + 'static,
{
    Box::new(move |s| {
        Box::pin(async move {
            let s = p(s).await?;
            match q.parse_once(s).await {
                Ok(((), rest)) => Ok(rest),
                Err(_) => Err(()),
            }
        })
    })
}

/// an operation nothing happens for must be quiet after this many polls
const QUIET: usize = 32;

struct Obs {
    polls: usize,
    pendings: usize,
    idle_steps: usize,
    /// C33: pollings in a row without any step of the producer
    quiet: bool,
    alone: usize,
    alone_max: usize,
    seen_steps: usize,
}

fn story() -> String {
    with(|w| format!("producer: [{}], still to come {:?}", w.log.join(", "), w.script))
}

/// Poll until ready. When the task is pending and was not woken, nothing of the consumer will run
/// again by itself: `must` tells whether what was signalled so far obliges it to be ready.
fn drive<F: Future>(
    fut: Pin<&mut F>,
    what: &str,
    change_wakers: bool,
    hook_wakes: bool,
    obs: &mut Obs,
    must: impl Fn(&World) -> Option<String>,
) -> Result<F::Output, Viol> {
    let mut fut = fut;
    let new = || Arc::new(HookWake { woken: AtomicBool::new(false), hooks: hook_wakes });
    let mut flag = new();
    let mut waker = Waker::from(Arc::clone(&flag));
    let mut spins = 0;
    loop {
        if change_wakers && obs.polls % 2 == 1 {
            flag = new();
            waker = Waker::from(Arc::clone(&flag));
        }
        flag.woken.store(false, Ordering::SeqCst);
        obs.polls += 1;
        with(|w| w.polling = true);
        let r = fut.as_mut().poll(&mut Context::from_waker(&waker));
        with(|w| w.polling = false);
        if let Poll::Ready(v) = r {
            return Ok(v);
        }
        obs.pendings += 1;
        spins += 1;
        if obs.quiet {
            let steps = with(|w| w.log.len());
            obs.alone = if steps == obs.seen_steps { obs.alone + 1 } else { 1 };
            obs.alone_max = obs.alone_max.max(obs.alone);
            obs.seen_steps = steps;
            if obs.alone > QUIET {
                return Err(Viol(format!("{what} was polled {} times in a row because it woke itself, and the producer did nothing; {}", obs.alone, story())));
            }
        }
        if flag.woken.load(Ordering::SeqCst) && spins < 200 {
            continue;
        }
        if !flag.woken.load(Ordering::SeqCst) {
            if let Some(why) = with(|w| must(w)) {
                return Err(Viol(format!("{what} stays suspended although {why}; {}", story())));
            }
        }
        // idle: the producer goes on
        spins = 0;
        match with(|w| w.script.pop_front()) {
            Some((_, s)) => {
                obs.idle_steps += 1;
                perform(s)
            }
            None => {
                let stuck = if flag.woken.load(Ordering::SeqCst) { "keeps waking itself" } else { "stays suspended" };
                return Err(Viol(format!("{what} {stuck} although the producer is finished; {}", story())));
            }
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Use {
    /// enumerate up to this many segments, abandoning the enumeration afterwards
    Read(usize),
    /// enumerate to the end, then ask again
    ReadAll,
    /// poll a request for the next segment this many times, drop it, continue the enumeration
    DropNext(usize),
    Advance(usize),
    /// poll an advance once before driving it (only matters for wakers) - kept simple
    Parse(usize),
    /// a sequence of matchers in one parser: this many arbitrary elements, a given one, a literal
    Chain(usize, usize),
    /// a literal of this many elements that differs at that one: decided there
    Refuse(usize, usize),
}

fn begin(script: &[(usize, Step)]) -> HookSeq {
    let (b, filler) = Filler::new();
    with(|w| *w = World { filler: Some(filler), ..World::default() });
    let seq = HookSeq::new(HookBuffer(b), NoLoader);
    let signals = seq.verif_signals();
    with(|w| {
        w.signals = Some(signals);
        w.script = script.iter().copied().collect();
    });
    seq
}

fn consume(seq: HookSeq, uses: &[Use], change_wakers: bool, hook_wakes: bool, quiet: bool, st: &mut Stats) -> Case {
    let mut obs = Obs { polls: 0, pendings: 0, idle_steps: 0, quiet, alone: 0, alone_max: 0, seen_steps: 0 };
    let mut seq = seq;
    let mut pos = 0usize; // elements advanced over
    for u in uses {
        match *u {
            Use::Read(_) | Use::ReadAll | Use::DropNext(_) => {
                let (limit, drops) = match *u {
                    Use::Read(n) => (n, 0),
                    Use::ReadAll => (usize::MAX, 0),
                    Use::DropNext(n) => (3, n),
                    _ => unreachable!(),
                };
                let mut at = Cell::new(pos);
                let mut segs = seq.segments();
                let mut k = 0;
                let mut drops = drops;
                let mut ended = false;
                while k < limit {
                    if drops > 0 {
                        // a request that is given up must not lose anything
                        drops -= 1;
                        let mut f = std::pin::pin!(segs.next(0));
                        with(|w| w.polling = true);
                        let r = f.as_mut().poll(&mut Context::from_waker(Waker::noop()));
                        with(|w| w.polling = false);
                        match r {
                            Poll::Pending => {
                                st.add("requests_dropped", 1);
                                continue;
                            }
                            Poll::Ready(r) => {
                                if check_seg(r, &mut at, st)? {
                                    ended = true;
                                }
                            }
                        }
                    } else {
                        let cur = at.get();
                        let fut = std::pin::pin!(segs.next(0));
                        let r = drive(fut, "the request for the next segment", change_wakers, hook_wakes, &mut obs, |w| {
                            if w.signalled as usize > cur {
                                Some(format!("{} elements were appended and signalled and {cur} were yielded or skipped", w.signalled))
                            } else if w.signalled_done {
                                Some("completion was declared and signalled".into())
                            } else {
                                None
                            }
                        })?;
                        if check_seg(r, &mut at, st)? {
                            ended = true;
                        }
                    }
                    k += 1;
                    if ended {
                        break;
                    }
                }
                if ended {
                    // asked again, it ends again
                    let fut = std::pin::pin!(segs.next(0));
                    let r = drive(fut, "the request after the end", change_wakers, hook_wakes, &mut obs, |_| Some("it had reported the end".into()))?;
                    if let Some(s) = r {
                        if !s.is_empty() {
                            return Err(Viol(format!("segment {s:?} after the end; {}", story())));
                        }
                    }
                }
            }
            Use::Advance(n) => {
                let fut = seq.advance(n);
                let mut fut = Box::pin(fut);
                let target = pos.saturating_add(n);
                seq = drive(fut.as_mut(), "advancing", change_wakers, hook_wakes, &mut obs, |w| {
                    if w.signalled as usize >= target {
                        Some(format!("the {target} elements it needs were appended and signalled"))
                    } else if w.signalled_done {
                        Some("completion was declared and signalled".into())
                    } else {
                        None
                    }
                })?;
                drop(fut);
                let (appended, done) = with(|w| (w.appended as usize, w.done));
                if target <= appended {
                    pos = target;
                } else if done {
                    pos = appended;
                    st.add("advances_stopped_by_the_end", 1);
                } else {
                    return Err(Viol(format!("advancing by {n} at {pos} ended with {appended} elements appended and no completion; {}", story())));
                }
                st.add("advances", 1);
            }
            Use::Chain(n, m) => {
                let lit: Vec<u32> = (0..m).map(|i| (pos + n + 1 + i) as u32).collect();
                let target = pos + n + 1 + m;
                let mut p: Seq = Box::new(|s| Box::pin(std::future::ready(Ok(s))));
                for _ in 0..n {
                    p = then(p, any::any_item::<u32, HookSeq>().map(|_| ()));
                }
                p = then(then(p, the::the_item((pos + n) as u32)), atom(lit));
                let mut fut = Box::pin(p(seq));
                let r = drive(fut.as_mut(), "matching a sequence of elements", change_wakers, hook_wakes, &mut obs, move |w| {
                    if w.signalled as usize >= target {
                        Some(format!("the {target} elements it needs were appended and signalled"))
                    } else if w.signalled_done {
                        Some("completion was declared and signalled".into())
                    } else {
                        None
                    }
                })?;
                drop(fut);
                let (appended, done) = with(|w| (w.appended as usize, w.done));
                match r {
                    Ok(rest) if appended >= target => {
                        pos = target;
                        seq = rest;
                        st.add("sequences_matched", 1);
                        if !done {
                            st.add("decided_before_the_end", 1);
                        }
                    }
                    Err(()) if appended < target && done => {
                        st.add("sequences_refused", 1);
                        break;
                    }
                    r => {
                        let r = if r.is_ok() { "matched" } else { "refused" };
                        return Err(Viol(format!("the elements from {pos} to {target} are {r} with {appended} appended; {}", story())));
                    }
                }
            }
            Use::Refuse(n, at) => {
                let pat: Vec<u32> = (0..n).map(|i| if i == at { u32::MAX } else { (pos + i) as u32 }).collect();
                let target = pos + at + 1;
                let must = move |w: &World| {
                    if w.signalled as usize >= target {
                        Some(format!("element {} was appended and signalled and is not the expected one", target - 1))
                    } else if w.signalled_done {
                        Some("completion was declared and signalled".into())
                    } else {
                        None
                    }
                };
                let ok = if n == 1 {
                    let mut fut = Box::pin(the::the_item(u32::MAX).parse_once(seq));
                    drive(fut.as_mut(), "matching an element", change_wakers, hook_wakes, &mut obs, must)?.is_ok()
                } else {
                    let mut fut = Box::pin(atom(pat).parse_once(seq));
                    drive(fut.as_mut(), "matching a literal", change_wakers, hook_wakes, &mut obs, must)?.is_ok()
                };
                if ok {
                    return Err(Viol(format!("a different literal of {n} matches at {pos}; {}", story())));
                }
                st.add("different_literals", 1);
                break;
            }
            Use::Parse(n) => {
                // the next n elements, matched as a literal; then the following one, if any
                let pat: Vec<u32> = (pos as u32..(pos + n) as u32).collect();
                let mut fut = Box::pin(atom(pat).parse_once(seq));
                let target = pos.saturating_add(n);
                let must = |target: usize| {
                    move |w: &World| {
                        if w.signalled as usize >= target {
                            Some(format!("the {target} elements it needs were appended and signalled"))
                        } else if w.signalled_done {
                            Some("completion was declared and signalled".into())
                        } else {
                            None
                        }
                    }
                };
                let r = drive(fut.as_mut(), "matching a literal", change_wakers, hook_wakes, &mut obs, must(target))?;
                drop(fut);
                let appended = with(|w| w.appended as usize);
                match r {
                    Ok((_, rest)) => {
                        if appended < target {
                            return Err(Viol(format!("matched {n} elements at {pos} of {appended}; {}", story())));
                        }
                        pos = target;
                        seq = rest;
                        st.add("literals_matched", 1);
                    }
                    Err(_) => {
                        if appended >= target || !with(|w| w.done) {
                            return Err(Viol(format!("the next {n} elements at {pos} did not match with {appended} appended; {}", story())));
                        }
                        st.add("literals_refused", 1);
                        break;
                    }
                }
                if n % 2 == 0 {
                    let r = if n % 4 == 0 {
                        let mut f = Box::pin(any::any_item::<u32, HookSeq>().parse_once(seq));
                        drive(f.as_mut(), "matching an element", change_wakers, hook_wakes, &mut obs, must(pos + 1))?.map_err(|_| ())
                    } else {
                        let mut f = Box::pin(the::the_item(pos as u32).parse_once(seq));
                        drive(f.as_mut(), "matching an element", change_wakers, hook_wakes, &mut obs, must(pos + 1))?
                            .map(|(_, r)| (pos as u32, r))
                            .map_err(|_| ())
                    };
                    let appended = with(|w| w.appended as usize);
                    match r {
                        Ok((v, rest)) => {
                            if v as usize != pos || pos >= appended {
                                return Err(Viol(format!("element {pos} of {appended} reads as {v}; {}", story())));
                            }
                            pos += 1;
                            seq = rest;
                        }
                        Err(()) => {
                            if appended > pos || !with(|w| w.done) {
                                return Err(Viol(format!("no element at {pos} of {appended}; {}", story())));
                            }
                            break;
                        }
                    }
                }
            }
        }
    }
    let w = with(|w| (w.inside, w.points));
    st.add("steps_inside_polls", w.0 as u64);
    st.add("interruption_points", w.1 as u64);
    st.add("polls_pending", obs.pendings as u64);
    if quiet {
        st.max("max_polls_without_a_step", obs.alone_max as u64);
    }
    st.add("steps_while_suspended", obs.idle_steps as u64);
    if w.0 > 0 {
        st.distinct(with(|w| w.log.clone()));
    }
    Ok(())
}

/// true at the end
fn check_seg(r: Option<&[u32]>, at: &mut Cell<usize>, st: &mut Stats) -> Result<bool, Viol> {
    match r {
        Some(s) => {
            for x in s {
                if *x as usize != at.get() || *x >= with(|w| w.appended) {
                    return Err(Viol(format!("element {} reads as {x}; {}", at.get(), story())));
                }
                at.set(at.get() + 1);
            }
            st.add("segments_yielded", 1);
            Ok(false)
        }
        None => {
            let (a, d) = with(|w| (w.appended as usize, w.done));
            if !d || at.get() != a {
                return Err(Viol(format!(
                    "the end was reported after {} of {a} elements (declared complete: {d}); {}",
                    at.get(),
                    story()
                )));
            }
            st.add("ends_reported", 1);
            Ok(true)
        }
    }
}

fn shapes() -> Vec<Vec<Step>> {
    use Step::*;
    vec![
        vec![Done, Signal],
        vec![Append(2), Signal, Done, Signal],
        vec![Append(2), Done, Signal],
        vec![Signal, Append(1), Done, Signal],
        vec![Append(1), Append(2), Signal, Done, Signal],
        vec![Append(2), Signal, Append(1), Done, Signal],
        vec![Append(0), Signal, Append(1), Done, Signal],
        vec![Append(1), Done, Signal, Signal],
    ]
}
fn consumers() -> Vec<Vec<Use>> {
    use Use::*;
    vec![
        vec![ReadAll],
        vec![Advance(1), ReadAll],
        vec![Advance(2), ReadAll],
        vec![Advance(3), ReadAll],
        vec![Advance(4)],
        vec![DropNext(1), ReadAll],
        vec![Read(1), Advance(2), ReadAll],
        vec![Advance(1), Advance(1), Read(1)],
        vec![Parse(2), ReadAll],
        vec![Parse(1), Advance(1), ReadAll],
    ]
}

/// every placement of one script's steps over one consumer's first interruption points
fn enumerate(i: usize, depth: usize, st: &mut Stats) -> Case {
    let (sh, co) = (shapes(), consumers());
    let script = &sh[i % sh.len()];
    let uses = &co[i / sh.len() % co.len()];
    let n = script.len();
    let width = match n {
        2 => depth * 2,
        3 => depth + 2,
        4 => depth,
        _ => depth - 2,
    };
    let mut gaps = vec![0usize; n];
    loop {
        let s: Vec<(usize, Step)> = gaps.iter().copied().zip(script.iter().copied()).collect();
        for (changing, hooks) in [(false, false), (true, true)] {
            let seq = begin(&s);
            consume(seq, uses, changing, hooks, false, st).map_err(|v| {
                Viol(format!("{}; consumer {uses:?}, changing wakers: {changing}", v.0))
            })?;
            st.add("placements", 1);
        }
        // next vector of gaps
        let mut k = 0;
        loop {
            if k == n {
                return Ok(());
            }
            gaps[k] += 1;
            if gaps[k] < width {
                break;
            }
            gaps[k] = 0;
            k += 1;
        }
    }
}

#[derive(Clone, Copy, PartialEq)]
enum Mode {
    All,
    /// C30
    Needs,
    /// C33
    Quiet,
}

fn random_case(mode: Mode, mini: bool, rng: &mut Rng, st: &mut Stats) -> Case {
    let long = !mini && rng.chance(1, 100);
    let large = !mini && rng.chance(1, 100);
    let n = rng.range(0, if mini { 5 } else if long { 400 } else { 12 });
    let wide = *rng.pick(&[2, 6, 12]);
    let mut script = vec![];
    for _ in 0..n {
        let gap = rng.below(wide);
        script.push((
            gap,
            match rng.below(5) {
                0 if large => Step::Append(*rng.pick(&[255, 256, 257, 3000, 65_535, 65_536, 70_000])),
                0..=1 => Step::Append(*rng.pick(&[0, 1, 1, 2, 3, 7])),
                _ if rng.chance(1, 2) => Step::Signal,
                _ => Step::Append(rng.below(3)),
            },
        ));
    }
    script.push((rng.below(wide), Step::Done));
    script.push((rng.below(wide), Step::Signal));
    if mode == Mode::Quiet {
        // the producer stands still until the consumer is idle
        let often = rng.range(1, 4);
        for s in &mut script {
            if rng.chance(often, 4) {
                s.0 = usize::MAX;
            }
        }
    }
    let k = rng.range(1, if long { 60 } else { 6 });
    if long {
        // eager producer, so that many pieces wait to be read
        if rng.chance(1, 2) {
            for s in &mut script {
                s.0 = 0;
            }
        }
        st.add("long_scripts", 1);
    }
    if large {
        st.add("large_appends", 1);
    }
    let mut uses = vec![];
    for _ in 0..k {
        if mode == Mode::Needs {
            uses.push(match rng.below(6) {
                0..=1 => Use::Parse(rng.below(6)),
                2..=3 => Use::Chain(rng.below(4), rng.below(4)),
                4 => {
                    let n = rng.range(1, 6);
                    Use::Refuse(n, rng.below(n))
                }
                _ => Use::Advance(*rng.pick(&[0, 1, 2, 3])),
            });
            continue;
        }
        uses.push(match rng.below(6) {
            0 => Use::Read(rng.below(4)),
            1 => Use::ReadAll,
            2 => Use::DropNext(rng.range(1, 3)),
            3 => Use::Parse(rng.below(5)),
            _ if (long || large) && rng.chance(1, 2) => {
                Use::Advance(*rng.pick(&[100, 255, 256, 257, 1000, 65_535, 65_536, 65_537, 100_000]))
            }
            _ if rng.chance(1, 20) => Use::Advance(rng.excess()),
            _ => Use::Advance(*rng.pick(&[0, 1, 1, 2, 3, 5, 20])),
        });
    }
    let (c, h) = (rng.chance(1, 2), rng.chance(1, 2));
    let seq = begin(&script);
    let r = consume(seq, &uses, c, h, mode == Mode::Quiet, st).map_err(|v| Viol(format!("{}; consumer {uses:?}", v.0)));
    if st.want_sample() && uses.len() > 2 {
        st.sample(|| format!("{}; consumer {uses:?}", story()));
    }
    r
}

// ---- threads ---------------------------------------------------------------------------------------
struct PlainBuilder;
impl SequenceBuilder<Pieces> for PlainBuilder {
    type Length = usize;
    type Segment = [u32];
    type Buffer = RealBuffer;
    type Loader = NoLoader;
    fn build(&self, _: Pieces) -> (RealBuffer, NoLoader) {
        unimplemented!()
    }
}
type PlainSeq = DefaultSequence<Pieces, PlainBuilder>;

struct Unpark(std::thread::Thread, AtomicBool);
impl Wake for Unpark {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref()
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.1.store(true, Ordering::SeqCst);
        self.0.unpark();
    }
}
/// None: not ready although the producer finished long ago and nobody woke the task
fn block<F: Future>(fut: Pin<&mut F>, finished: &AtomicBool, pendings: &mut u64) -> Option<F::Output> {
    let mut fut = fut;
    let u = Arc::new(Unpark(std::thread::current(), AtomicBool::new(false)));
    let w = Waker::from(Arc::clone(&u));
    loop {
        u.1.store(false, Ordering::SeqCst);
        if let Poll::Ready(v) = fut.as_mut().poll(&mut Context::from_waker(&w)) {
            return Some(v);
        }
        *pendings += 1;
        let mut since: Option<Instant> = None;
        while !u.1.load(Ordering::SeqCst) {
            std::thread::park_timeout(Duration::from_millis(if cfg!(miri) { 1 } else { 50 }));
            // every notification call has returned: the waking is over
            if finished.load(Ordering::SeqCst) {
                if u.1.load(Ordering::SeqCst) {
                    break;
                }
                if since.get_or_insert_with(Instant::now).elapsed() > Duration::from_millis(if cfg!(miri) { 20 } else { 500 }) {
                    return None;
                }
            }
        }
    }
}

/// Data is appended and completion declared, without any notification, while the consumer asks: it
/// must not see the completion without the data.
fn declare_case(mini: bool, rng: &mut Rng, st: &mut Stats) -> Case {
    let (b, mut filler) = Filler::new();
    let seq = PlainSeq::new(b, NoLoader);
    let (notify, done) = seq.verif_signals();
    let n = rng.range(1, 3);
    let wait = if mini { rng.below(3) } else { rng.below(400) };
    let asks = if mini { rng.below(8) } else { rng.below(200) };
    let advance = rng.chance(1, 2);
    let ready = AtomicUsize::new(0);
    let meet = || {
        ready.fetch_add(1, Ordering::Relaxed);
        while ready.load(Ordering::Relaxed) < 2 {
            if mini {
                std::thread::yield_now()
            } else {
                std::hint::spin_loop()
            }
        }
    };
    let pause = |k: usize| {
        for _ in 0..k {
            if mini {
                std::thread::yield_now()
            } else {
                std::hint::spin_loop()
            }
        }
    };
    // the consumer looks only now and then, so that its looks order nothing
    let hint = AtomicBool::new(false);
    let told = AtomicBool::new(false);
    let after = rng.chance(2, 3);
    let r: Case = std::thread::scope(|s| {
        let (meet, pause, hint, told) = (&meet, &pause, &hint, &told);
        s.spawn(move || {
            meet();
            pause(wait);
            for i in 0..n {
                filler.append(vec![i as u32]);
            }
            done.store(true, Ordering::SeqCst);
            hint.store(true, Ordering::Relaxed);
            told.store(true, Ordering::Release);
            filler
        });
        meet();
        if after {
            // the declaration has been made, though nothing orders it before the consumer's looks
            while !hint.load(Ordering::Relaxed) {
                pause(1);
            }
        } else {
            pause(asks);
        }
        let mut cx = Context::from_waker(Waker::noop());
        let mut seq = seq;
        let mut skipped = 0;
        if advance {
            let mut f = Box::pin(seq.advance(n));
            let mut tries = 0u64;
            loop {
                if let Poll::Ready(q) = f.as_mut().poll(&mut cx) {
                    seq = q;
                    break;
                }
                // a later look needs a signal
                while !told.load(Ordering::Acquire) {
                    std::thread::yield_now();
                }
                notify.send();
                tries += 1;
                if tries > 3 {
                    std::mem::forget(f);
                    return Err(Viol(format!("advancing over {n} elements stays suspended although completion was declared")));
                }
            }
            skipped = n;
        }
        let mut at = skipped;
        let mut segs = seq.segments();
        loop {
            let f = std::pin::pin!(segs.next(0));
            match f.poll(&mut cx) {
                Poll::Pending => std::thread::yield_now(),
                Poll::Ready(None) => break,
                Poll::Ready(Some(x)) => {
                    for x in x {
                        if *x as usize != at {
                            return Err(Viol(format!(
                                "element {x} shows where {at} should, {n} appended while {}",
                                if advance { "advancing over all of them" } else { "reading" }
                            )));
                        }
                        at += 1;
                    }
                }
            }
        }
        if at != n {
            return Err(Viol(format!("the end was reported after {at} of {n} elements, which were appended before completion was declared")));
        }
        Ok(())
    });
    r?;
    st.add("declared_while_asking", 1);
    Ok(())
}

fn threads_case(mini: bool, rng: &mut Rng, st: &mut Stats) -> Case {
    let (b, filler) = Filler::new();
    let seq = PlainSeq::new(b, NoLoader);
    let (notify, done) = seq.verif_signals();
    let steps = if mini { rng.range(1, 3) } else { rng.range(1, 12) };
    let pace = if mini { 1 } else { *rng.pick(&[1, 60, 600, 4000]) };
    let sizes: Vec<usize> = (0..steps).map(|_| *rng.pick(&[0, 1, 1, 2, 5])).collect();
    let total: usize = sizes.iter().sum();
    let each: Vec<bool> = (0..steps).map(|_| rng.chance(3, 4)).collect();
    let pause: Vec<usize> = (0..steps + 1).map(|_| rng.below(pace)).collect();
    let style = rng.below(3);
    let skips: Vec<usize> = (0..40).map(|_| rng.below(4)).collect();
    let finished = AtomicBool::new(false);
    let ready = AtomicUsize::new(0);
    let meet = || {
        ready.fetch_add(1, Ordering::SeqCst);
        while ready.load(Ordering::SeqCst) < 2 {
            if mini { std::thread::yield_now() } else { std::hint::spin_loop() }
        }
    };
    let mut pendings = 0;
    let mut trace = vec![];
    let r: Case = std::thread::scope(|s| {
        let (finished, meet, sizes, each, pause) = (&finished, &meet, &sizes, &each, &pause);
        s.spawn(move || {
            let mut filler = filler;
            meet();
            let mut at = 0u32;
            for i in 0..sizes.len() {
                for _ in 0..pause[i] {
                    std::hint::spin_loop();
                }
                let p = (at..at + sizes[i] as u32).collect();
                at += sizes[i] as u32;
                filler.append(p);
                if each[i] {
                    notify.send();
                }
            }
            for _ in 0..pause[sizes.len()] {
                std::hint::spin_loop();
            }
            done.store(true, Ordering::SeqCst);
            notify.send();
            finished.store(true, Ordering::SeqCst);
        });
        meet();
        let stall = |what: &str| Viol(format!("{what} stays suspended although completion was declared and signalled; pieces {sizes:?}"));
        let mut seq = seq;
        let mut pos = 0usize;
        if style > 0 {
            for n in skips {
                let mut f = Box::pin(seq.advance(n));
                let Some(s) = block(f.as_mut(), finished, &mut pendings) else {
                    std::mem::forget(f);
                    return Err(stall("advancing"));
                };
                seq = s;
                let want = (pos + n).min(total);
                pos = want;
                // what is left must start there
                let mut segs = seq.segments();
                let mut first = None;
                loop {
                    let f = std::pin::pin!(segs.next(0));
                    match block(f, finished, &mut pendings) {
                        None => return Err(stall("the request for the next segment")),
                        Some(None) => break,
                        Some(Some(s)) if s.is_empty() => {}
                        Some(Some(s)) => {
                            first = Some(s[0]);
                            break;
                        }
                    }
                }
                let expect = if pos < total { Some(pos as u32) } else { None };
                if first != expect {
                    return Err(Viol(format!("after advancing to {pos} of {total} the next element is {first:?}; pieces {sizes:?}")));
                }
                if pos == total || style == 2 {
                    break;
                }
            }
        }
        let mut segs = seq.segments();
        let mut at = pos;
        loop {
            let f = std::pin::pin!(segs.next(0));
            match block(f, finished, &mut pendings) {
                None => return Err(stall("the request for the next segment")),
                Some(None) => break,
                Some(Some(s)) => {
                    trace.push(pendings);
                    for x in s {
                        if *x as usize != at {
                            return Err(Viol(format!("element {at} reads as {x}; pieces {sizes:?}")));
                        }
                        at += 1;
                    }
                }
            }
        }
        if at != total {
            return Err(Viol(format!("the end was reported after {at} of {total} elements; pieces {sizes:?}")));
        }
        Ok(())
    });
    r?;
    st.add("thread_runs", 1);
    st.add("thread_polls_pending", pendings);
    if pendings > 0 {
        st.distinct((&sizes, &each, &trace));
    }
    Ok(())
}

fn main() {
    let a = Args::parse();
    let mini = a.mini;
    let mut r = Report::new(&a);
    if a.prop == "C30" {
        // parses of what has arrived; stalls and lost elements as such are C22's
        r.part("arrivals", a.cases(200_000, 30), |g, s| random_case(Mode::Needs, mini, g, s));
        return r.finish(
            10_000,
            &["sequences_matched", "sequences_refused", "decided_before_the_end", "different_literals", "literals_matched", "literals_refused", "steps_inside_polls", "polls_pending"],
        );
    }
    if a.prop == "C33" {
        r.part("quiet", a.cases(200_000, 30), |g, s| random_case(Mode::Quiet, mini, g, s));
        return r.finish(10_000, &["steps_inside_polls", "polls_pending", "max_polls_without_a_step", "advances", "requests_dropped", "literals_matched"]);
    }
    assert_eq!(a.prop, "C22");
    let combos = (shapes().len() * consumers().len()) as u64;
    let depth = if a.scale > 4.0 { 11 } else { 8 };
    if !mini {
        let next = AtomicUsize::new(0);
        let only = a.only.is_some();
        r.part("placements", combos, |g, s| {
            let i = if only { g.below(combos as usize) } else { next.fetch_add(1, Ordering::Relaxed) };
            enumerate(i, depth, s)
        });
    }
    r.part("random", a.cases(300_000, 30), |g, s| random_case(Mode::All, mini, g, s));
    r.part("threads", a.cases(12_000, 2), |g, s| threads_case(mini, g, s));
    r.part("declare", a.cases(12_000, 40), |g, s| declare_case(mini, g, s));
    r.finish(
        10_000,
        &["long_scripts", "large_appends", "steps_inside_polls", "polls_pending", "ends_reported", "advances", "advances_stopped_by_the_end", "requests_dropped", "literals_matched", "literals_refused", "thread_polls_pending"],
    );
}
