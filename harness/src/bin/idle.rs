//! C33: suspended operations wait idly. Whatever suspends here (a notification, a source, a sequence)
//! wakes only when the harness lets it go on. Until then the operation under observation may ask to
//! be polled again by itself only a bounded number of times; afterwards its latest waker is woken.
use parcom_core::{Parser, ParserOnce};
use parcom_internals::future::notify::{Notify, Wait};
use parcom_sequence_core::{
    BufferWriter, SequenceBuffer, SequenceBuilder, SequenceControl, SequenceLoader, SequenceSource,
};
use parcom_sequence_sources::utf8_validator::Utf8Validator;
use parcom_sequences::generic::GenericSequenceBuilder;
use parcom_sequences::BufferStrategy;
use parcom_verif::driver::{Args, Case, Report, Stats, Viol};
use parcom_verif::ensure;
use parcom_verif::exec::{self, Flag, Idle, Run};
use parcom_verif::grammar::*;
use parcom_verif::rng::Rng;
use parcom_verif::tseq::*;
use std::cell::RefCell;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::atomic::Ordering;
use std::sync::Arc;
use std::task::{Context, Poll, Waker};

/// polls an operation may bring about by itself while nothing happens for it
const QUIET: usize = 32;

/// poll, and again as long as the operation wakes itself; the flag of its latest waker
fn settle<F: Future + ?Sized>(
    fut: &mut Pin<Box<F>>,
    what: &str,
    fresh: bool,
    st: &mut Stats,
) -> Result<Result<F::Output, Arc<Flag>>, Viol> {
    let mut flag = Arc::new(Flag::default());
    let mut n = 0;
    loop {
        n += 1;
        ensure!(n <= QUIET, "{what} was polled {n} times in a row because it woke itself, although nothing happened");
        let waker = Waker::from(Arc::clone(&flag));
        if let Poll::Ready(v) = fut.as_mut().poll(&mut Context::from_waker(&waker)) {
            return Ok(Ok(v));
        }
        st.add("polls_pending", 1);
        if !flag.woken.swap(false, Ordering::SeqCst) {
            st.max("max_polls_alone", n as u64);
            st.add("suspended", 1);
            return Ok(Err(flag));
        }
        if fresh {
            flag = Arc::new(Flag::default());
        }
    }
}

// ---- notifications ------------------------------------------------------------------------------
fn waits_case(rng: &mut Rng, st: &mut Stats) -> Case {
    let notify = Notify::new();
    let mut pool: Vec<(Pin<Box<Wait>>, Option<Arc<Flag>>)> = vec![];
    let mut sig = vec![];
    for _ in 0..rng.range(2, 40) {
        let k = rng.below(8);
        sig.push(k);
        match k {
            0 => {
                notify.send();
                for (w, f) in pool.drain(..) {
                    if let Some(f) = f {
                        st.add("wake_obligations", 1);
                        ensure!(f.woken.load(Ordering::SeqCst), "a pending wait was not woken by a notification");
                    }
                    drop(w);
                }
            }
            1..=2 => pool.push((Box::pin(notify.wait()), None)),
            3 if !pool.is_empty() => {
                pool.swap_remove(rng.below(pool.len()));
            }
            _ if !pool.is_empty() => {
                let i = rng.below(pool.len());
                let fresh = rng.chance(1, 2);
                match settle(&mut pool[i].0, "a wait", fresh, st)? {
                    Ok(()) => return Err(Viol("a wait completed although nothing was sent".into())),
                    Err(f) => pool[i].1 = Some(f),
                }
            }
            _ => {}
        }
        // creating, polling and dropping waits is nothing another wait waits for
        for (_, f) in &pool {
            if let Some(f) = f {
                let n = f.count.load(Ordering::SeqCst);
                ensure!(n <= QUIET, "a pending wait was woken {n} times although nothing was sent");
            }
        }
    }
    st.distinct(("waits", sig));
    Ok(())
}

// ---- loads --------------------------------------------------------------------------------------
#[derive(Default)]
struct Gate {
    open: bool,
    wakers: Vec<Waker>,
    polls: usize,
    suspended: bool,
    done: usize,
}
struct Pass(Rc<RefCell<Gate>>);
impl Future for Pass {
    type Output = ();
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        let mut g = self.0.borrow_mut();
        g.polls += 1;
        if g.open {
            g.open = false;
            g.suspended = false;
            return Poll::Ready(());
        }
        g.suspended = true;
        // only the latest waker counts
        g.wakers = vec![cx.waker().clone()];
        Poll::Pending
    }
}

struct Src<T> {
    rng: Rng,
    gate: Rc<RefCell<Gate>>,
    data: Vec<T>,
    at: usize,
}
#[derive(Debug)]
struct Broken;

impl<T: Copy + 'static> Src<T> {
    async fn run<C>(&mut self, control: C) -> C::Result
    where
        C: SequenceControl<Item = T, Error = Broken>,
    {
        let rng = &mut self.rng;
        let gate = &self.gate;
        for _ in 0..rng.below(3) {
            Pass(Rc::clone(gate)).await;
        }
        if rng.chance(1, 10) {
            return control.cancel(Broken);
        }
        let left = self.data.len() - self.at;
        if left == 0 {
            return control.finish();
        }
        let n = rng.below(6).min(left);
        let mut w = control.request_writer(n);
        for i in 0..n {
            if rng.chance(1, 4) {
                Pass(Rc::clone(gate)).await;
            }
            let _ = w.push_item(self.data[self.at + i]);
        }
        if rng.chance(1, 10) {
            return w.cancel(Broken);
        }
        if rng.chance(1, 4) {
            Pass(Rc::clone(gate)).await;
        }
        self.at += n;
        w.advance()
    }
}
impl<T: Copy + 'static> SequenceSource for Src<T> {
    type Item = T;
    type Error = Broken;
    type Next<'a, C>
        = Pin<Box<dyn Future<Output = C::Result> + 'a>>
    where
        Self: 'a,
        C: 'a + SequenceControl<Item = T, Error = Broken>;
    fn next<'a, C>(&'a mut self, control: C, _: usize) -> Self::Next<'a, C>
    where
        C: 'a + SequenceControl<Item = T, Error = Broken>,
    {
        Box::pin(self.run(control))
    }
}

fn load_all<L: SequenceLoader>(
    what: &str,
    loader: &mut L,
    gate: &Rc<RefCell<Gate>>,
    mut after: impl FnMut(),
    rng: &mut Rng,
    st: &mut Stats,
) -> Result<Vec<usize>, Viol> {
    let mut sig = vec![];
    for _ in 0..200 {
        let fresh = rng.chance(1, 2);
        let drop_at = if rng.chance(1, 10) { rng.below(3) } else { usize::MAX };
        let mut fut = Box::pin(loader.load());
        let mut gates = 0;
        let end = loop {
            match settle(&mut fut, what, fresh, st)? {
                Ok(r) => break r.is_ok_and(|i| i.is_done()),
                Err(flag) => {
                    let mut g = gate.borrow_mut();
                    ensure!(g.suspended, "{what} is suspended although the source is not");
                    if gates == drop_at {
                        break false;
                    }
                    gates += 1;
                    g.open = true;
                    let wakers = std::mem::take(&mut g.wakers);
                    drop(g);
                    for w in wakers {
                        w.wake();
                    }
                    st.add("wake_obligations", 1);
                    ensure!(
                        flag.woken.load(Ordering::SeqCst),
                        "{what} was not woken when its source could go on"
                    );
                }
            }
        };
        drop(fut);
        {
            let mut g = gate.borrow_mut();
            g.wakers.clear();
            g.open = false;
            g.suspended = false;
            g.done += 1;
        }
        sig.push(gates);
        if rng.chance(1, 5) {
            loader.force_commit();
        }
        after();
        if end {
            break;
        }
    }
    Ok(sig)
}

#[derive(Clone, Copy)]
struct Least(usize);
impl BufferStrategy for Least {
    fn calc_capacity(&self, min: usize) -> usize {
        min.max(self.0)
    }
}

fn loads_case(rng: &mut Rng, st: &mut Stats) -> Case {
    let gate = Rc::new(RefCell::new(Gate::default()));
    let n = rng.below(30);
    let least = Arc::new(Least(*rng.pick(&[0usize, 1, 4, 64])));
    let builder = GenericSequenceBuilder::verif_new(least);
    let sig = if rng.chance(1, 2) {
        let data: Vec<u32> = (0..n as u32).collect();
        let src = Src { rng: rng.fork(), gate: Rc::clone(&gate), data, at: 0 };
        let (mut buf, mut loader) = builder.build(src);
        let eager = rng.chance(1, 2);
        load_all("a load", &mut loader, &gate, || if eager { let _ = buf.advance(usize::MAX); }, rng, st)?
    } else {
        let text: Vec<char> = (0..n).map(|_| *rng.pick(&['a', 'é', '語', '🦀'])).collect();
        let mut data: Vec<u8> = text.iter().collect::<String>().into_bytes();
        if rng.chance(1, 4) && !data.is_empty() {
            let i = rng.below(data.len());
            data[i] = rng.next() as u8;
        }
        let src = Src { rng: rng.fork(), gate: Rc::clone(&gate), data, at: 0 };
        let (buf, mut loader) = builder.build(Utf8Validator::new(src));
        let r = load_all("a validated load", &mut loader, &gate, || {}, rng, st)?;
        drop(buf);
        st.add("validated", 1);
        r
    };
    if sig.iter().any(|g| *g > 0) && st.distinct(("loads", &sig)) && st.want_sample() {
        st.sample(|| format!("loads, each suspended so many times: {sig:?}"));
    }
    Ok(())
}

// ---- parses -------------------------------------------------------------------------------------
fn parse_on<Kd: Kind>(root: &Node, input: &[char], rng: &mut Rng, st: &mut Stats) -> Case
where
    TSeq<Kd>: Input,
{
    let mut r = Reference::new(root, input, <TSeq<Kd> as Input>::width);
    let _ = r.eval(root, 0);
    if r.over {
        return Ok(());
    }
    let mut cuts = vec![];
    let mut at = 0;
    let mut ends = vec![0];
    for c in input {
        if rng.chance(1, 2) {
            cuts.push(at);
        }
        at += Kd::width(*c);
        ends.push(at);
    }
    let doc = Doc::<Kd>::new(input, cuts, *rng.pick(&[60u8, 160, 255]), rng.next());
    let partly = rng.chance(1, 2);
    if partly {
        doc.arrive(*rng.pick(&ends));
    }
    log_reset(u64::MAX);
    let built = build::<TSeq<Kd>>(root);
    let fresh = rng.chance(1, 2);
    let ops = || doc.ops();
    let mut idle = Idle { fresh, limit: QUIET, activity: &ops, alone_max: 0, polls: 0 };
    let done = if rng.chance(1, 3) {
        matches!(idle.run(built.root.clone().parse_once(TSeq::new(&doc))), Run::Done(_))
    } else {
        matches!(idle.run(built.root.parse(TSeq::new(&doc))), Run::Done(_))
    };
    let _ = log_take();
    ensure!(
        idle.alone_max <= QUIET,
        "{} on {}: the parse was polled {} times in a row because it woke itself, although the sequence did nothing",
        root.show(),
        show_input(input),
        idle.alone_max
    );
    ensure!(
        done || partly,
        "{} on {}: the parse was not woken when the sequence went on",
        root.show(),
        show_input(input)
    );
    st.max("max_polls_alone", idle.alone_max as u64);
    st.add("polls_pending", idle.polls as u64);
    if !done {
        st.add("parses_left_waiting", 1);
    }
    st.add("wake_obligations", doc.suspensions.get());
    if idle.polls > 1 && st.distinct(("parse", root, input)) && st.want_sample() && !done {
        st.sample(|| format!("{} on {}: polled {} times, left waiting", root.show(), show_input(input), idle.polls));
    }
    Ok(())
}

fn parses_case(rng: &mut Rng, st: &mut Stats) -> Case {
    let mut cfg = GenCfg::default();
    cfg.depth = rng.range(1, 4);
    cfg.modes = rng.chance(1, 2);
    if rng.chance(1, 2) {
        cfg.alphabet = vec!['a', 'b'];
    }
    let depth = cfg.depth;
    let mut g = Gen::new(rng, cfg);
    let root = if g.rng.chance(1, 3) { g.iter(depth - 1) } else { g.node(depth) };
    let inputs: Vec<_> = (0..2).map(|_| g.sentence(&root)).collect();
    for input in &inputs {
        if rng.chance(1, 2) {
            parse_on::<Text>(&root, input, rng, st)?;
        } else {
            parse_on::<Items>(&root, input, rng, st)?;
        }
    }
    exec::clear_queue();
    Ok(())
}

fn main() {
    let a = Args::parse();
    assert_eq!(a.prop, "C33");
    let mut r = Report::new(&a);
    r.part("waits", a.cases(60_000, 20), waits_case);
    r.part("loads", a.cases(100_000, 20), loads_case);
    r.part("parses", a.cases(100_000, 15), parses_case);
    r.finish(20_000, &["polls_pending", "max_polls_alone", "wake_obligations", "suspended", "validated", "parses_left_waiting"]);
}
