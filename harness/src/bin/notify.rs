//! C14: event logs of the notification primitive, recorded under one logical clock and judged
//! offline. A poll that began after a later notification had returned must be ready, one that ended
//! before any later notification was called must be pending, and after all notifications have
//! returned every wait left pending must have been woken through its last waker.
use parcom_internals::future::notify::{Notify, Wait};
use parcom_verif::driver::{Args, Case, Report, Stats, Viol};
use parcom_verif::ensure;
use parcom_verif::rng::Rng;
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Barrier, Mutex};
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Wake, Waker};

#[derive(Debug, Clone)]
enum Ev {
    Send { b: u64, e: u64 },
    Create { wait: usize, b: u64, e: u64 },
    Poll { wait: usize, waker: usize, b: u64, e: u64, ready: bool },
    Dropped { wait: usize },
}

type SharedWait<'a> = (usize, Pin<Box<Wait<'a>>>);

struct World<'a> {
    notify: &'a Notify,
    /// lets callbacks reach the signal; only used while the case runs
    clock: AtomicU64,
    waits: AtomicUsize,
    wakers: AtomicUsize,
    wakes: Mutex<Vec<(usize, u64)>>,
    nested: Mutex<Vec<Ev>>,
    pool: Mutex<Vec<SharedWait<'a>>>,
    nested_left: AtomicUsize,
}

/// what a waker does when it is woken, besides recording it
#[derive(Clone, Copy, PartialEq, Debug)]
enum React {
    Nothing,
    Send,
    WaitAndPoll,
    PollPooled,
}

struct W {
    id: usize,
    /// a pointer because wakers are 'static
    world: *const World<'static>,
    react: React,
}
// SAFETY: World is Sync, and it outlives all wakers: see `Arena`
unsafe impl Send for W {}
unsafe impl Sync for W {}

impl Wake for W {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref()
    }
    fn wake_by_ref(self: &Arc<Self>) {
        let w = unsafe { &*self.world };
        let t = w.tick();
        w.wakes.lock().unwrap().push((self.id, t));
        if self.react == React::Nothing {
            return;
        }
        let left = w
            .nested_left
            .fetch_update(Ordering::SeqCst, Ordering::SeqCst, |n| n.checked_sub(1));
        if left.is_err() {
            return;
        }
        let mut log = vec![];
        match self.react {
            React::Nothing => {}
            React::Send => w.send(&mut log),
            React::WaitAndPoll => {
                let mut wait = w.create(&mut log);
                w.poll(&mut wait, React::Nothing, None, &mut log);
                w.pool.lock().unwrap().push(wait);
            }
            React::PollPooled => {
                let wait = w.pool.lock().unwrap().pop();
                if let Some(mut wait) = wait {
                    w.poll(&mut wait, React::Nothing, None, &mut log);
                    w.pool.lock().unwrap().push(wait);
                }
            }
        }
        w.nested.lock().unwrap().extend(log);
    }
}

impl<'a> World<'a> {
    fn tick(&self) -> u64 {
        self.clock.fetch_add(1, Ordering::SeqCst)
    }
    fn send(&self, log: &mut Vec<Ev>) {
        let b = self.tick();
        if b % 7 == 3 && !std::thread::panicking() {
            // from a destructor while the thread unwinds
            struct OnDrop<'a>(&'a Notify);
            impl Drop for OnDrop<'_> {
                fn drop(&mut self) {
                    self.0.send();
                }
            }
            let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                let _d = OnDrop(self.notify);
                std::panic::resume_unwind(Box::new(()));
            }));
        } else {
            self.notify.send();
        }
        let e = self.tick();
        log.push(Ev::Send { b, e });
    }
    fn create(&self, log: &mut Vec<Ev>) -> SharedWait<'a> {
        let wait = self.waits.fetch_add(1, Ordering::SeqCst);
        let b = self.tick();
        let f = self.notify.wait();
        let e = self.tick();
        log.push(Ev::Create { wait, b, e });
        (wait, Box::pin(f))
    }
    fn waker(&self, react: React) -> (usize, Waker) {
        let id = self.wakers.fetch_add(1, Ordering::SeqCst);
        let w = W {
            id,
            world: self as *const World<'a> as *const World<'static>,
            react,
        };
        (id, Waker::from(Arc::new(w)))
    }
    fn poll(
        &self,
        wait: &mut SharedWait<'a>,
        react: React,
        reuse: Option<&(usize, Waker)>,
        log: &mut Vec<Ev>,
    ) -> bool {
        let fresh;
        let (id, waker) = match reuse {
            Some(w) => w,
            None => {
                fresh = self.waker(react);
                &fresh
            }
        };
        let b = self.tick();
        let r = wait.1.as_mut().poll(&mut Context::from_waker(waker));
        let e = self.tick();
        let ready = matches!(r, Poll::Ready(()));
        log.push(Ev::Poll { wait: wait.0, waker: *id, b, e, ready });
        ready
    }
}

fn react(rng: &mut Rng, hostile: bool) -> React {
    if !hostile {
        return React::Nothing;
    }
    *rng.pick(&[
        React::Nothing,
        React::Nothing,
        React::Send,
        React::WaitAndPoll,
        React::PollPooled,
    ])
}

fn actor<'a>(w: &World<'a>, ops: usize, profile: usize, hostile: bool, rng: &mut Rng) -> (Vec<Ev>, Vec<SharedWait<'a>>) {
    let mut log = vec![];
    let mut mine: Vec<SharedWait<'a>> = vec![];
    let mut kept: Option<(usize, Waker)> = None;
    for _ in 0..ops {
        for _ in 0..rng.below(4) {
            std::hint::spin_loop();
        }
        if rng.chance(1, 10) {
            std::thread::yield_now();
        }
        let k = match profile {
            // notifier
            1 => *rng.pick(&[0, 0, 0, 9]),
            // waiter
            2 => *rng.pick(&[1, 3, 3, 3, 3, 5, 6]),
            _ => rng.below(10),
        };
        match k {
            0 => w.send(&mut log),
            1 | 2 => {
                let x = w.create(&mut log);
                mine.push(x);
            }
            3 | 4 | 9 => {
                if mine.is_empty() {
                    let x = w.create(&mut log);
                    mine.push(x);
                }
                let i = rng.below(mine.len());
                let ready = if rng.chance(1, 3) {
                    let k = kept.get_or_insert_with(|| w.waker(React::Nothing));
                    w.poll(&mut mine[i], React::Nothing, Some(k), &mut log)
                } else {
                    let r = react(rng, hostile);
                    w.poll(&mut mine[i], r, None, &mut log)
                };
                if ready {
                    let x = mine.swap_remove(i);
                    log.push(Ev::Dropped { wait: x.0 });
                }
            }
            5 => {
                if !mine.is_empty() {
                    let x = mine.swap_remove(rng.below(mine.len()));
                    w.pool.lock().unwrap().push(x);
                }
            }
            6 => {
                let x = w.pool.lock().unwrap().pop();
                mine.extend(x);
            }
            7 => {
                if !mine.is_empty() && rng.chance(1, 3) {
                    let x = mine.swap_remove(rng.below(mine.len()));
                    log.push(Ev::Dropped { wait: x.0 });
                }
            }
            _ => {
                kept = None;
            }
        }
    }
    (log, mine)
}

struct WaitLog {
    created: Option<(u64, u64)>,
    polls: Vec<(u64, u64, bool, usize)>,
    dropped: bool,
}

fn judge(events: &[Ev], wakes: &[(usize, u64)], st: &mut Stats) -> Case {
    let mut sends: Vec<(u64, u64)> = vec![];
    let mut waits: Vec<WaitLog> = vec![];
    let at = |waits: &mut Vec<WaitLog>, i: usize| {
        while waits.len() <= i {
            waits.push(WaitLog { created: None, polls: vec![], dropped: false });
        }
    };
    for e in events {
        match *e {
            Ev::Send { b, e } => sends.push((b, e)),
            Ev::Create { wait, b, e } => {
                at(&mut waits, wait);
                waits[wait].created = Some((b, e));
            }
            Ev::Poll { wait, waker, b, e, ready } => {
                at(&mut waits, wait);
                waits[wait].polls.push((b, e, ready, waker));
            }
            Ev::Dropped { wait } => {
                at(&mut waits, wait);
                waits[wait].dropped = true;
            }
        }
    }
    st.add("notifications", sends.len() as u64);
    st.add("wakes", wakes.len() as u64);
    for (i, w) in waits.iter_mut().enumerate() {
        let Some((cb, ce)) = w.created else { continue };
        w.polls.sort();
        let story = |why: &str| {
            let mut evs: Vec<String> = vec![format!("created [{cb},{ce}]")];
            evs.extend(w.polls.iter().map(|p| {
                format!("poll [{},{}] {}", p.0, p.1, if p.2 { "ready" } else { "pending" })
            }));
            Viol(format!(
                "{why}; wait {i}: {}; notifications {:?}",
                evs.join(", "),
                sends.iter().filter(|s| s.1 + 1 >= cb).take(12).collect::<Vec<_>>()
            ))
        };
        let mut was_ready = false;
        for &(b, e, ready, _) in &w.polls {
            let surely = sends.iter().any(|s| s.0 > ce && s.1 < b);
            let possibly = sends.iter().any(|s| s.1 > cb && s.0 < e);
            if ready && !possibly {
                return Err(story("a wait completed although nothing was sent after it was created"));
            }
            if !ready && surely {
                return Err(story("a wait is pending although a notification was sent after it was created"));
            }
            if !ready && was_ready {
                return Err(story("a completed wait became pending"));
            }
            was_ready = ready;
            st.add(if ready { "polls_ready" } else { "polls_pending" }, 1);
            if possibly && !surely {
                st.add("polls_overlapping_a_notification", 1);
            }
        }
        if w.dropped {
            continue;
        }
        if let Some(&(b, _, false, waker)) = w.polls.last() {
            if sends.iter().any(|s| s.0 > ce) && sends.iter().any(|s| s.0 > ce && s.1 > b) {
                st.add("wake_obligations", 1);
                if !wakes.iter().any(|x| x.0 == waker && x.1 > b) {
                    return Err(story("never woken although a notification followed its last poll"));
                }
            }
        }
    }
    Ok(())
}

fn case(threads: usize, mini: bool, rng: &mut Rng, st: &mut Stats) -> Case {
    let notify = Box::new(Notify::new());
    let hostile = rng.chance(1, 2);
    let ops = if mini { rng.range(3, 8) } else if threads == 1 { rng.range(5, 60) } else { rng.range(3, 40) };
    let world = World {
        notify: &notify,
        clock: AtomicU64::new(0),
        waits: AtomicUsize::new(0),
        wakers: AtomicUsize::new(0),
        wakes: Mutex::new(vec![]),
        nested: Mutex::new(vec![]),
        pool: Mutex::new(vec![]),
        nested_left: AtomicUsize::new(if hostile { 12 } else { 0 }),
    };
    let mut events = vec![];
    // waits stay alive until everything was judged
    let mut left: Vec<SharedWait> = vec![];
    if threads == 1 {
        let (l, m) = actor(&world, ops, 0, hostile, rng);
        events.extend(l);
        left.extend(m);
    } else {
        // waits that exist (and were polled) before the threads start
        for _ in 0..rng.below(3) {
            let mut x = world.create(&mut events);
            if rng.chance(2, 3) {
                let r = react(rng, hostile);
                world.poll(&mut x, r, None, &mut events);
            }
            world.pool.lock().unwrap().push(x);
        }
        let start = Barrier::new(threads);
        let out: Vec<_> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..threads)
                .map(|i| {
                    let mut r = rng.fork();
                    let (w, start) = (&world, &start);
                    let profile = if i == 0 { 1 } else { *rng.pick(&[0, 2, 2]) };
                    s.spawn(move || {
                        start.wait();
                        actor(w, ops, profile, hostile, &mut r)
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join()).collect()
        });
        for o in out {
            match o {
                Ok((l, m)) => {
                    events.extend(l);
                    left.extend(m);
                }
                Err(_) => return Err(Viol("a thread using the signal panicked".into())),
            }
        }
    }
    left.extend(world.pool.lock().unwrap().drain(..));
    events.extend(world.nested.lock().unwrap().drain(..));
    let wakes = world.wakes.lock().unwrap().clone();
    judge(&events, &wakes, st)?;
    // once more at rest: ready exactly if something was sent after it was created
    let mut last = vec![];
    for x in left.iter_mut() {
        world.poll(x, React::Nothing, None, &mut last);
    }
    let sent: Vec<(u64, u64)> = events
        .iter()
        .filter_map(|e| match e {
            Ev::Send { b, e } => Some((*b, *e)),
            _ => None,
        })
        .collect();
    for e in &last {
        let Ev::Poll { wait, ready, .. } = e else { continue };
        let Some((cb, ce)) = events.iter().find_map(|e| match e {
            Ev::Create { wait: w, b, e } if w == wait => Some((*b, *e)),
            _ => None,
        }) else {
            continue;
        };
        let surely = sent.iter().any(|s| s.0 > ce);
        let possibly = sent.iter().any(|s| s.1 > cb);
        if (surely && !ready) || (!possibly && *ready) {
            return Err(Viol(format!(
                "at rest wait {wait} created [{cb},{ce}] is {} with notifications {sent:?}",
                if *ready { "ready" } else { "pending" }
            )));
        }
    }
    st.add("nested_operations", (if hostile { 12 } else { 0 }) - world.nested_left.load(Ordering::SeqCst) as u64);
    drop(left);
    // the interleaving: kinds of events in the order they began
    let mut order: Vec<(u64, u8)> = events
        .iter()
        .map(|e| match e {
            Ev::Send { b, .. } => (*b, 0),
            Ev::Create { b, .. } => (*b, 1),
            Ev::Poll { b, ready, .. } => (*b, 2 + *ready as u8),
            Ev::Dropped { .. } => (0, 4),
        })
        .collect();
    order.sort();
    let sig: Vec<u8> = order.iter().map(|x| x.1).collect();
    if sig.contains(&0) && (sig.contains(&2) || sig.contains(&3)) {
        st.distinct((threads, &sig));
        if st.want_sample() && wakes.len() > 1 {
            st.sample(|| {
                let names = ["send", "wait", "poll:pending", "poll:ready", "drop"];
                format!(
                    "{threads} thread(s), order of events: {}",
                    sig.iter().map(|k| names[*k as usize]).collect::<Vec<_>>().join(" ")
                )
            });
        }
    }
    drop(world);
    Ok(())
}

// ---- races without instrumentation between the operations ---------------------------------------
struct Spin {
    n: usize,
    count: AtomicUsize,
}
impl Spin {
    /// all threads have called this `k`-th time
    fn wait(&self, k: &mut usize) {
        *k += 1;
        self.count.fetch_add(1, Ordering::AcqRel);
        let mut i = 0u32;
        while self.count.load(Ordering::Acquire) < *k * self.n {
            i += 1;
            if i % 64 == 0 || cfg!(miri) {
                std::thread::yield_now();
            } else {
                std::hint::spin_loop();
            }
        }
    }
}

struct Plain(AtomicUsize);
impl Wake for Plain {
    fn wake(self: Arc<Self>) {
        self.0.fetch_add(1, Ordering::Relaxed);
    }
}

/// One notifier and `pollers` waiting threads meet again and again; nothing but the signal itself
/// synchronises a round's poll with its notification.
fn race(mini: bool, rng: &mut Rng, st: &mut Stats) -> Case {
    let pollers = rng.range(1, 3);
    let rounds = if mini { 4 } else { 200 };
    let notify = Notify::new();
    let spin = Spin { n: pollers + 1, count: AtomicUsize::new(0) };
    let failed: Mutex<Option<String>> = Mutex::new(None);
    let (pending, ready) = (AtomicUsize::new(0), AtomicUsize::new(0));
    std::thread::scope(|s| {
        for _ in 0..pollers {
            let (notify, spin, failed, pending, ready) = (&notify, &spin, &failed, &pending, &ready);
            let mut r = rng.fork();
            s.spawn(move || {
                let mut k = 0;
                for _ in 0..rounds {
                    let mut w = Box::pin(notify.wait());
                    let n = r.range(1, 2);
                    let mut flags = vec![];
                    let jitter = r.below(60);
                    spin.wait(&mut k);
                    if !mini {
                        for _ in 0..jitter {
                            std::hint::spin_loop();
                        }
                    }
                    let mut done = false;
                    for _ in 0..n {
                        let f = Arc::new(Plain(AtomicUsize::new(0)));
                        let waker = Waker::from(Arc::clone(&f));
                        done = w.as_mut().poll(&mut Context::from_waker(&waker)).is_ready();
                        flags.push(f);
                        if done {
                            break;
                        }
                    }
                    spin.wait(&mut k);
                    if done {
                        ready.fetch_add(1, Ordering::Relaxed);
                    } else {
                        pending.fetch_add(1, Ordering::Relaxed);
                        if flags.last().unwrap().0.load(Ordering::SeqCst) == 0 {
                            failed.lock().unwrap().get_or_insert("a pending wait was never woken by the notification racing with its poll".into());
                        }
                    }
                    let waker = Waker::noop();
                    if !done && w.as_mut().poll(&mut Context::from_waker(waker)).is_pending() {
                        failed.lock().unwrap().get_or_insert("a wait is pending after a notification".into());
                    }
                }
            });
        }
        let mut r = rng.fork();
        let (notify, spin) = (&notify, &spin);
        s.spawn(move || {
            let mut k = 0;
            for _ in 0..rounds {
                let n = r.range(1, 2);
                let jitter = r.below(120);
                spin.wait(&mut k);
                if !mini {
                    for _ in 0..jitter {
                        std::hint::spin_loop();
                    }
                }
                for _ in 0..n {
                    notify.send();
                }
                spin.wait(&mut k);
            }
        });
    });
    st.add("races", (rounds * pollers) as u64);
    st.add("races_poll_first", pending.into_inner() as u64);
    st.add("races_send_first", ready.into_inner() as u64);
    match failed.into_inner().unwrap() {
        Some(m) => Err(Viol(m)),
        None => Ok(()),
    }
}


/// Several threads, each of which waits and notifies, with nothing between the operations: a thread's
/// own notification completes the waits it made before, whatever the others do meanwhile.
fn herd(mini: bool, rng: &mut Rng, st: &mut Stats) -> Case {
    let threads = if mini { 2 } else { rng.range(2, 5) };
    let rounds = if mini { 3 } else { 2000 };
    let notify = Notify::new();
    let spin = Spin { n: threads, count: AtomicUsize::new(0) };
    let failed: Mutex<Option<String>> = Mutex::new(None);
    let (pending, obliged) = (AtomicUsize::new(0), AtomicUsize::new(0));
    std::thread::scope(|s| {
        for _ in 0..threads {
            let (notify, spin, failed, pending, obliged) = (&notify, &spin, &failed, &pending, &obliged);
            let mut r = rng.fork();
            // none, some or all of the waits are polled before the notification
            let eager = r.below(3);
            let spread = *r.pick(&[0, 4, 40]);
            s.spawn(move || {
                let fail = |m: &str| {
                    failed.lock().unwrap().get_or_insert(m.to_string());
                };
                let mut flags: Vec<Arc<Plain>> = vec![];
                let mut k = 0;
                spin.wait(&mut k);
                let mut first = 0;
                for i in 0..rounds {
                    let mut w = Box::pin(notify.wait());
                    let mut registered = None;
                    if r.chance(eager, 2) {
                        let f = Arc::new(Plain(AtomicUsize::new(0)));
                        let waker = Waker::from(Arc::clone(&f));
                        if w.as_mut().poll(&mut Context::from_waker(&waker)).is_pending() {
                            first += 1;
                            registered = Some(f);
                        }
                    }
                    if spread > 0 {
                        for _ in 0..r.below(spread) {
                            std::hint::spin_loop();
                        }
                    }
                    notify.send();
                    if w.as_mut().poll(&mut Context::from_waker(Waker::noop())).is_pending() {
                        fail(&format!("a wait is pending after its own thread sent a notification (round {i} of {threads} threads doing the same)"));
                    }
                    flags.extend(registered);
                    if i % 64 == 63 || i + 1 == rounds {
                        // all notifications have returned: every waker that had to be woken was
                        spin.wait(&mut k);
                        obliged.fetch_add(flags.len(), Ordering::Relaxed);
                        if flags.drain(..).any(|f| f.0.load(Ordering::SeqCst) == 0) {
                            fail("a pending wait was never woken although its own thread sent a notification");
                        }
                        let w = notify.wait();
                        spin.wait(&mut k);
                        if std::pin::pin!(w).poll(&mut Context::from_waker(Waker::noop())).is_ready() {
                            fail("a wait created when nothing was being sent is ready");
                        }
                        spin.wait(&mut k);
                    }
                }
                pending.fetch_add(first, Ordering::Relaxed);
            });
        }
    });
    st.add("herd_rounds", (rounds * threads) as u64);
    st.add("herd_pending_polls", pending.into_inner() as u64);
    st.add("herd_wake_obligations", obliged.into_inner() as u64);
    match failed.into_inner().unwrap() {
        Some(m) => Err(Viol(m)),
        None => Ok(()),
    }
}

// ---- publication ------------------------------------------------------------------------------------
/// a waker that adds no ordering of its own
struct Loose(AtomicUsize);
impl Wake for Loose {
    fn wake(self: Arc<Self>) {
        self.0.store(1, Ordering::Relaxed);
    }
}
struct Slot(std::cell::UnsafeCell<u64>);
// SAFETY: written by the notifier before it notifies, read by waiters after their wait completed;
// whether that is enough is what this part observes
unsafe impl Sync for Slot {}

/// One thread writes and notifies, others wait and read; nothing but the notification orders the two.
/// (ThreadSanitizer and Miri report a race where it does not.)
fn publish(mini: bool, rng: &mut Rng, st: &mut Stats) -> Case {
    let waiters = rng.range(1, 3);
    let rounds = if mini { 4 } else { 100 };
    let notify = Notify::new();
    let slots: Vec<Slot> = (0..rounds).map(|_| Slot(std::cell::UnsafeCell::new(0))).collect();
    let (armed, read) = (AtomicUsize::new(0), AtomicUsize::new(0));
    let wrong = AtomicUsize::new(0);
    let (at_once, woken) = (AtomicUsize::new(0), AtomicUsize::new(0));
    let until = |a: &AtomicUsize, n: usize| {
        let mut i = 0u32;
        while a.load(Ordering::Relaxed) < n {
            i += 1;
            if i % 64 == 0 || cfg!(miri) {
                std::thread::yield_now();
            } else {
                std::hint::spin_loop();
            }
        }
    };
    std::thread::scope(|s| {
        for _ in 0..waiters {
            let (notify, slots, armed, read, wrong, at_once, woken) =
                (&notify, &slots, &armed, &read, &wrong, &at_once, &woken);
            let mut r = rng.fork();
            s.spawn(move || {
                for (i, slot) in slots.iter().enumerate() {
                    let mut w = Box::pin(notify.wait());
                    let patient = r.chance(1, 2);
                    let flag = Arc::new(Loose(AtomicUsize::new(0)));
                    let waker = Waker::from(Arc::clone(&flag));
                    armed.fetch_add(1, Ordering::Relaxed);
                    for _ in 0..r.below(80) {
                        std::hint::spin_loop();
                    }
                    let mut polls = 0;
                    while w.as_mut().poll(&mut Context::from_waker(&waker)).is_pending() {
                        polls += 1;
                        if patient {
                            until(&flag.0, 1);
                        } else {
                            std::thread::yield_now();
                        }
                    }
                    if polls == 0 { at_once } else { woken }.fetch_add(1, Ordering::Relaxed);
                    // SAFETY: see Slot
                    if unsafe { *slot.0.get() } != i as u64 + 1 {
                        wrong.fetch_add(1, Ordering::Relaxed);
                    }
                    read.fetch_add(1, Ordering::Relaxed);
                    until(read, (i + 1) * waiters);
                }
            });
        }
        let (notify, slots, armed) = (&notify, &slots, &armed);
        let mut r = rng.fork();
        s.spawn(move || {
            for (i, slot) in slots.iter().enumerate() {
                until(armed, (i + 1) * waiters);
                for _ in 0..r.below(80) {
                    std::hint::spin_loop();
                }
                // SAFETY: see Slot
                unsafe { *slot.0.get() = i as u64 + 1 };
                notify.send();
            }
        });
    });
    st.add("publications_read", (rounds * waiters) as u64);
    st.add("published_before_the_poll", at_once.into_inner() as u64);
    st.add("published_after_the_poll", woken.into_inner() as u64);
    ensure!(wrong.into_inner() == 0, "a task whose wait completed does not see what was done before the notification");
    Ok(())
}

/// two wakers with the same data pointer: they differ in their vtables alone
struct Twin([Arc<Plain>; 2]);
struct TwinVt<const K: usize>;
impl<const K: usize> TwinVt<K> {
    const VT: &'static RawWakerVTable = &RawWakerVTable::new(
        |p| unsafe {
            Arc::increment_strong_count(p as *const Twin);
            RawWaker::new(p, Self::VT)
        },
        |p| unsafe {
            let t = Arc::from_raw(p as *const Twin);
            t.0[K].0.fetch_add(1, Ordering::SeqCst);
        },
        |p| unsafe {
            let t = &*(p as *const Twin);
            t.0[K].0.fetch_add(1, Ordering::SeqCst);
        },
        |p| unsafe { drop(Arc::from_raw(p as *const Twin)) },
    );
}
impl Twin {
    fn waker(self: &Arc<Twin>, second: bool) -> Waker {
        let vt = if second { TwinVt::<1>::VT } else { TwinVt::<0>::VT };
        // SAFETY: the vtables treat the pointer as an Arc<Twin>, which is Send and Sync
        unsafe { Waker::from_raw(RawWaker::new(Arc::into_raw(Arc::clone(self)) as *const (), vt)) }
    }
}

// ---- many waiters, many notifications -------------------------------------------------------------
/// Many waits, polled often and dropped here and there, then many notifications at once: every wait
/// is ready, every last waker of a pending wait was woken, a wait created afterwards is pending.
fn burst(mini: bool, rng: &mut Rng, st: &mut Stats) -> Case {
    let notify = Notify::new();
    for round in 0..rng.range(1, 3) {
        let n = if mini { rng.range(1, 12) } else { *rng.pick(&[1, 3, 40, 255, 256, 257, 1000, 3000]) };
        let sends = if mini {
            rng.range(1, 4)
        } else {
            *rng.pick(&[1usize, 1, 1, 2, 127, 128, 255, 256, 257, 512, 32_768, 65_535, 65_536, 65_537, 131_072])
        };
        let shared = Arc::new(Plain(AtomicUsize::new(0)));
        let twin = Arc::new(Twin([0, 1].map(|_| Arc::new(Plain(AtomicUsize::new(0))))));
        let mut waits: Vec<(Pin<Box<Wait>>, Option<Arc<Plain>>)> = vec![];
        for _ in 0..n {
            waits.push((Box::pin(notify.wait()), None));
        }
        let density = rng.range(1, 4);
        for pass in 0..rng.range(1, if mini { 2 } else { 4 }) {
            for (w, last) in waits.iter_mut() {
                if !rng.chance(density, 4) {
                    continue;
                }
                let (f, waker) = if rng.chance(1, 5) {
                    let second = rng.chance(1, 2);
                    (Arc::clone(&twin.0[second as usize]), twin.waker(second))
                } else {
                    let f = if rng.chance(1, 3) { Arc::clone(&shared) } else { Arc::new(Plain(AtomicUsize::new(0))) };
                    let waker = Waker::from(Arc::clone(&f));
                    (f, waker)
                };
                let r = w.as_mut().poll(&mut Context::from_waker(&waker));
                ensure!(r.is_pending(), "a wait completed although nothing was sent after it was created (round {round}, pass {pass}, {n} waits)");
                *last = Some(f);
            }
            if rng.chance(1, 3) {
                let keep = rng.range(1, 4);
                waits.retain(|_| rng.chance(keep, 4));
            }
        }
        for _ in 0..sends {
            notify.send();
        }
        let mut late = Box::pin(notify.wait());
        let mut polled = 0;
        for (i, (w, last)) in waits.iter_mut().enumerate() {
            if let Some(f) = last {
                polled += 1;
                ensure!(
                    f.0.load(Ordering::SeqCst) > 0,
                    "wait {i} of {n} was pending and never woken by {sends} notification(s)"
                );
            }
            ensure!(
                w.as_mut().poll(&mut Context::from_waker(Waker::noop())).is_ready(),
                "wait {i} of {n} is pending after {sends} notification(s)"
            );
        }
        ensure!(
            late.as_mut().poll(&mut Context::from_waker(Waker::noop())).is_pending(),
            "a wait created after {sends} notification(s) is ready"
        );
        st.add("burst_waits", waits.len() as u64);
        st.add("burst_notifications", sends as u64);
        st.distinct(("burst", n, sends, polled, waits.len()));
    }
    Ok(())
}

/// wakers that wait again whenever they are woken: one notification wakes those that waited before
/// it, and ends
struct Chain<'a> {
    notify: &'a Notify,
    woken: AtomicUsize,
    over: AtomicUsize,
    waits: Mutex<Vec<Pin<Box<Wait<'a>>>>>,
    /// waits that were pending when they were polled
    armed: AtomicUsize,
}
struct Link(*const Chain<'static>);
// SAFETY: Chain is Sync and outlives its waits, which hold the wakers
unsafe impl Send for Link {}
unsafe impl Sync for Link {}
impl Wake for Link {
    fn wake(self: Arc<Self>) {
        let c = unsafe { &*self.0 };
        if c.woken.fetch_add(1, Ordering::SeqCst) > 5_000 {
            c.over.store(1, Ordering::SeqCst);
            return;
        }
        c.again();
    }
}
impl<'a> Chain<'a> {
    fn again(&self) {
        let mut w = Box::pin(self.notify.wait());
        let waker = Waker::from(Arc::new(Link(self as *const Chain<'a> as *const Chain<'static>)));
        if w.as_mut().poll(&mut Context::from_waker(&waker)).is_pending() {
            self.armed.fetch_add(1, Ordering::SeqCst);
        }
        self.waits.lock().unwrap().push(w);
    }
}
fn chains(rng: &mut Rng, st: &mut Stats) -> Case {
    let notify = Notify::new();
    let c = Chain {
        notify: &notify,
        woken: AtomicUsize::new(0),
        over: AtomicUsize::new(0),
        waits: Mutex::new(vec![]),
        armed: AtomicUsize::new(0),
    };
    let links = rng.range(1, 4);
    for _ in 0..links {
        c.again();
    }
    let sends = rng.range(1, 6);
    for i in 0..sends {
        c.woken.store(0, Ordering::SeqCst);
        let links = c.armed.swap(0, Ordering::SeqCst);
        notify.send();
        let woken = c.woken.load(Ordering::SeqCst);
        ensure!(
            c.over.load(Ordering::SeqCst) == 0,
            "notification {i} does not end: it wakes the waits its wakers make, too"
        );
        ensure!(woken >= links, "notification {i} woke {woken} of {links} waits");
        st.add("chained_wakes", woken as u64);
    }
    dry(&c);
    st.distinct(("chains", links, sends));
    Ok(())
}
/// drop the waits, then the wakers the signal still holds
fn dry(c: &Chain) {
    c.waits.lock().unwrap().clear();
    c.woken.store(10_000, Ordering::SeqCst);
    c.notify.send();
}

/// One wait and more notifications than any 32 bit counter holds, a million in each case.
struct Wrap<'a> {
    notify: &'a Notify,
    early: Mutex<(Pin<Box<Wait<'a>>>, u64)>,
}
impl Wrap<'_> {
    fn case(&self, st: &mut Stats) -> Case {
        let mut g = self.early.lock().unwrap();
        let (early, sent) = &mut *g;
        let end = *sent + (1 << 20);
        while *sent < end {
            // look at each side of every power of two
            let next = if *sent < 4 {
                *sent + 1
            } else {
                let p = sent.next_power_of_two().max(8);
                if *sent == p {
                    p + 1
                } else if *sent < p - 1 {
                    p - 1
                } else {
                    p
                }
            }
            .min(end);
            while *sent < next {
                self.notify.send();
                *sent += 1;
            }
            ensure!(
                early.as_mut().poll(&mut Context::from_waker(Waker::noop())).is_ready(),
                "a wait is pending after {sent} notifications"
            );
        }
        st.max("max_notifications_to_one_wait", *sent);
        Ok(())
    }
}

fn main() {
    let a = Args::parse();
    let mini = a.mini;
    let mut r = Report::new(&a);
    r.part("alone", a.cases(60_000, 6), |g, s| case(1, mini, g, s));
    r.part("two", a.cases(25_000, 3), |g, s| case(2, mini, g, s));
    r.part("several", a.cases(20_000, 3), |g, s| {
        let n = if mini { 3 } else { g.range(3, 5) };
        case(n, mini, g, s)
    });
    r.part("races", a.cases(1_500, 3), |g, s| race(mini, g, s));
    r.part("herd", a.cases(400, 3), |g, s| herd(mini, g, s));
    r.part("publish", a.cases(600, 2), |g, s| publish(mini, g, s));
    let mut need = vec!["published_before_the_poll", "published_after_the_poll"];
    r.part("burst", a.cases(600, 4), |g, s| burst(mini, g, s));
    r.part("chains", a.cases(2_000, 3), chains);
    need.push("chained_wakes");
    if !mini {
        // 32 million, or beyond 2^32
        let millions = if a.scale > 4.0 { 4097 } else { 32 };
        let notify = Notify::new();
        let w = Wrap { notify: &notify, early: Mutex::new((Box::pin(notify.wait()), 0)) };
        r.part_in_order("wrap", millions, |_, s| w.case(s));
        need.push("max_notifications_to_one_wait");
    }
    need.extend_from_slice(
        &["burst_waits", "burst_notifications", "herd_pending_polls", "herd_wake_obligations", "races_poll_first", "races_send_first", "wake_obligations", "polls_ready", "polls_pending", "polls_overlapping_a_notification", "nested_operations", "wakes"],
    );
    r.finish(20_000, &need);
}
