//! Single-thread executor. A future is polled again only after its waker was invoked; suspended
//! operations of instrumented sequences are queued here and woken when everything is idle. Idle with
//! an empty queue and a pending future is a stall.
use std::cell::RefCell;
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

#[derive(Default)]
pub struct Flag {
    pub woken: AtomicBool,
    pub count: AtomicUsize,
}

impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref()
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.count.fetch_add(1, Ordering::SeqCst);
        self.woken.store(true, Ordering::SeqCst);
    }
}

thread_local! {
    static QUEUE: RefCell<Vec<Waker>> = const { RefCell::new(Vec::new()) };
}

pub fn defer_wake(w: &Waker) {
    QUEUE.with(|q| q.borrow_mut().push(w.clone()));
}

pub fn clear_queue() {
    QUEUE.with(|q| q.borrow_mut().clear());
}

#[derive(Debug)]
pub enum Run<T> {
    Done(T),
    Stalled,
    /// dropped after this many polls
    Dropped,
}

impl<T> Run<T> {
    pub fn done(self) -> Result<T, crate::driver::Viol> {
        match self {
            Run::Done(v) => Ok(v),
            _ => Err(crate::driver::Viol(
                "stalled: the parse is pending although nothing it waits for is outstanding".into(),
            )),
        }
    }
}

/// Run to completion, or drop the future after `max_polls` pending polls.
pub fn run_for<F: Future>(fut: F, max_polls: usize, polls: &mut usize) -> Run<F::Output> {
    clear_queue();
    let flag = Arc::new(Flag::default());
    let waker = Waker::from(Arc::clone(&flag));
    let mut cx = Context::from_waker(&waker);
    let mut fut: Pin<Box<F>> = Box::pin(fut);
    loop {
        flag.woken.store(false, Ordering::SeqCst);
        if let Poll::Ready(v) = fut.as_mut().poll(&mut cx) {
            clear_queue();
            return Run::Done(v);
        }
        *polls += 1;
        if *polls >= max_polls {
            clear_queue();
            return Run::Dropped;
        }
        loop {
            if flag.woken.load(Ordering::SeqCst) {
                break;
            }
            match QUEUE.with(|q| q.borrow_mut().pop()) {
                Some(w) => w.wake(),
                None => return Run::Stalled,
            }
        }
    }
}

pub fn run<F: Future>(fut: F) -> Run<F::Output> {
    let mut p = 0;
    run_for(fut, usize::MAX, &mut p)
}

type Local<'a, T> = Pin<Box<dyn Future<Output = T> + 'a>>;

/// Run futures in turns. `pick(n)` chooses one of `n` that may be polled and `around(i, _)` is called
/// before and after each poll of the `i`-th. A future is dropped after `limits[i]` pending polls.
pub fn together<T>(
    futs: Vec<Local<'_, T>>,
    limits: &[usize],
    pick: &mut dyn FnMut(usize) -> usize,
    around: &mut dyn FnMut(usize, bool),
) -> Result<Vec<Option<T>>, crate::driver::Viol> {
    clear_queue();
    let n = futs.len();
    let mut futs: Vec<Option<Local<'_, T>>> = futs.into_iter().map(Some).collect();
    let flags: Vec<Arc<Flag>> = (0..n).map(|_| Arc::new(Flag::default())).collect();
    flags.iter().for_each(|f| f.woken.store(true, Ordering::SeqCst));
    let mut polls = vec![0; n];
    let mut out: Vec<Option<T>> = (0..n).map(|_| None).collect();
    while futs.iter().any(|f| f.is_some()) {
        let ready: Vec<usize> = (0..n)
            .filter(|i| futs[*i].is_some() && flags[*i].woken.load(Ordering::SeqCst))
            .collect();
        if ready.is_empty() {
            let w = QUEUE.with(|q| {
                let mut q = q.borrow_mut();
                if q.is_empty() {
                    return None;
                }
                let at = pick(q.len());
                Some(q.swap_remove(at))
            });
            match w {
                Some(w) => w.wake(),
                None => return Run::<T>::Stalled.done().map(|_| vec![]),
            }
            continue;
        }
        let i = ready[pick(ready.len())];
        flags[i].woken.store(false, Ordering::SeqCst);
        let waker = Waker::from(Arc::clone(&flags[i]));
        around(i, true);
        let r = futs[i].as_mut().unwrap().as_mut().poll(&mut Context::from_waker(&waker));
        match r {
            Poll::Ready(v) => {
                out[i] = Some(v);
                futs[i] = None;
            }
            Poll::Pending => {
                polls[i] += 1;
                if polls[i] >= limits[i] {
                    futs[i] = None;
                }
            }
        }
        around(i, false);
    }
    clear_queue();
    Ok(out)
}

/// for futures that are always immediately ready
pub fn now<F: Future>(fut: F) -> F::Output {
    let mut fut = std::pin::pin!(fut);
    match fut.as_mut().poll(&mut Context::from_waker(Waker::noop())) {
        Poll::Ready(v) => v,
        Poll::Pending => panic!("future expected to be ready is pending"),
    }
}

/// Runs a future and counts the polls it brings about by itself: its waker was invoked, but not by
/// the harness, and `activity` stands where it stood.
pub struct Idle<'a> {
    /// a new waker for every poll, only the latest counts
    pub fresh: bool,
    /// polls in a row after which the run is given up
    pub limit: usize,
    pub activity: &'a dyn Fn() -> u64,
    pub alone_max: usize,
    pub polls: usize,
}

impl Idle<'_> {
    pub fn run<F: Future>(&mut self, fut: F) -> Run<F::Output> {
        clear_queue();
        let mut fut: Pin<Box<F>> = Box::pin(fut);
        let mut flag = Arc::new(Flag::default());
        let mut alone = 0;
        let mut seen = (self.activity)();
        loop {
            flag.woken.store(false, Ordering::SeqCst);
            let waker = Waker::from(Arc::clone(&flag));
            if let Poll::Ready(v) = fut.as_mut().poll(&mut Context::from_waker(&waker)) {
                clear_queue();
                return Run::Done(v);
            }
            self.polls += 1;
            let now = (self.activity)();
            alone = if now == seen { alone + 1 } else { 1 };
            seen = now;
            if alone > self.limit {
                self.alone_max = alone;
                clear_queue();
                return Run::Dropped;
            }
            if !flag.woken.load(Ordering::SeqCst) {
                self.alone_max = self.alone_max.max(alone);
                alone = 0;
            }
            while !flag.woken.load(Ordering::SeqCst) {
                match QUEUE.with(|q| q.borrow_mut().pop()) {
                    Some(w) => w.wake(),
                    None => return Run::Stalled,
                }
            }
            if self.fresh {
                flag = Arc::new(Flag::default());
            }
        }
    }
}
