//! C28: histories of subscribe, emit, unsubscribe and drop over stacks of filters on an instrumented
//! subject. Every delivery is recorded as the list of predicate tests and receptions it caused and
//! compared with the one the predicates determine; subscriptions and values are counted.
use parcom_internals::reactive::{IObservable, IObserver, ObservableExtensions, Predicate};
use parcom_verif::driver::{guarded, Args, Case, Caught, Injected, Report, Stats, Viol};
use parcom_verif::ensure;
use parcom_verif::ledger::{self, Tok};
use parcom_verif::rng::Rng;
use std::cell::{Cell, RefCell};
use std::rc::Rc;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Ev {
    /// (level of the filter, emission, outcome)
    Test(usize, usize, bool),
    TestPanics(usize, usize),
    /// (observer, emission)
    Got(usize, usize),
    GotPanics(usize, usize),
}

struct Item {
    seq: usize,
    value: u8,
    check: u64,
    _tok: Tok,
}
fn seal(seq: usize, value: u8) -> u64 {
    parcom_verif::rng::mix((seq as u64) << 8 | value as u64)
}

#[derive(Default)]
struct World {
    log: RefCell<Vec<Ev>>,
    /// emission at which the given call (counted per emission) panics
    panic_in: Cell<Option<usize>>,
    wrong: RefCell<Option<String>>,
    /// work for callbacks to do on other subscriptions
    reenter: RefCell<Option<Box<dyn FnMut(usize)>>>,
}
impl World {
    fn check(&self, i: &Item) {
        if i.check != seal(i.seq, i.value) {
            self.wrong.borrow_mut().get_or_insert(format!("item {} arrived altered", i.seq));
        }
    }
    fn panics(&self) -> bool {
        match self.panic_in.get() {
            Some(0) => {
                self.panic_in.set(None);
                true
            }
            Some(n) => {
                self.panic_in.set(Some(n - 1));
                false
            }
            None => false,
        }
    }
}

// ---- subject --------------------------------------------------------------------------------------
type Slot = (usize, *mut (dyn IObserver<Item> + 'static));
#[derive(Default)]
struct Inner {
    slots: RefCell<Vec<Slot>>,
    next: Cell<usize>,
    running: Cell<Option<usize>>,
}
#[derive(Clone)]
struct Subject(Rc<Inner>, Rc<Tok>);
struct Sub<U> {
    /// owns the observer
    owner: *mut U,
    inner: Rc<Inner>,
    id: usize,
    _tok: Tok,
}
impl<U> Drop for Sub<U> {
    fn drop(&mut self) {
        self.inner.slots.borrow_mut().retain(|s| s.0 != self.id);
        drop(unsafe { Box::from_raw(self.owner) });
    }
}
impl IObservable<Item> for Subject {
    type Subscription<U: IObserver<Item>> = Sub<U>;
    fn subscribe<U: IObserver<Item>>(&self, observer: U) -> Sub<U> {
        let id = self.0.next.get();
        self.0.next.set(id + 1);
        let owner = Box::into_raw(Box::new(observer));
        let short: *mut (dyn IObserver<Item> + '_) = owner;
        // SAFETY: removed from the list before the observer goes away
        let slot: Slot = (id, unsafe { std::mem::transmute::<*mut (dyn IObserver<Item> + '_), *mut (dyn IObserver<Item> + 'static)>(short) });
        self.0.slots.borrow_mut().push(slot);
        Sub { owner, inner: Rc::clone(&self.0), id, _tok: Tok::new() }
    }
}
/// another owner of the same observable
struct Shared<O>(Rc<O>);
impl<O> Clone for Shared<O> {
    fn clone(&self) -> Self {
        Shared(Rc::clone(&self.0))
    }
}
impl<O: IObservable<Item>> IObservable<Item> for Shared<O> {
    type Subscription<U: IObserver<Item>> = O::Subscription<U>;
    fn subscribe<U: IObserver<Item>>(&self, observer: U) -> O::Subscription<U> {
        self.0.subscribe(observer)
    }
}

// ---- user side ------------------------------------------------------------------------------------
struct Obs {
    id: usize,
    world: Rc<World>,
    _tok: Tok,
}
impl IObserver<Item> for Obs {
    fn next(&mut self, item: Item) {
        self.world.check(&item);
        if self.world.panics() {
            self.world.log.borrow_mut().push(Ev::GotPanics(self.id, item.seq));
            std::panic::panic_any(Injected);
        }
        self.world.log.borrow_mut().push(Ev::Got(self.id, item.seq));
        let r = self.world.reenter.borrow_mut().take();
        if let Some(mut f) = r {
            f(self.id);
        }
    }
}

/// which items pass
#[derive(Clone, Debug)]
enum Rule {
    Mask(u16),
    /// depends on how often it was asked
    Every(usize),
}
struct Pred {
    level: usize,
    rule: Rule,
    asked: Cell<usize>,
    world: Rc<World>,
    _tok: Tok,
}
impl Pred {
    fn ask(&self, i: &Item) -> bool {
        self.world.check(i);
        if self.world.panics() {
            self.world.log.borrow_mut().push(Ev::TestPanics(self.level, i.seq));
            std::panic::panic_any(Injected);
        }
        let n = self.asked.get();
        self.asked.set(n + 1);
        let r = match self.rule {
            Rule::Mask(m) => m >> (i.value % 16) & 1 == 1,
            Rule::Every(k) => n % k == 0,
        };
        self.world.log.borrow_mut().push(Ev::Test(self.level, i.seq, r));
        r
    }
}
impl Predicate<Item> for Pred {
    fn test(&self, item: &Item) -> bool {
        self.ask(item)
    }
}

trait Held {}
impl<T> Held for T {}
/// (observer, its level, underlying id, the subscription)
type Pool = Vec<(usize, usize, usize, Box<dyn Held>)>;

/// model of the predicates' answers
#[derive(Clone)]
struct Model {
    rules: Vec<Rule>,
    asked: Vec<usize>,
}
impl Model {
    /// the calls an item causes on its way to an observer behind `level` filters
    fn calls(&mut self, level: usize, obs: usize, seq: usize, value: u8, mut panic_in: Option<usize>, out: &mut Vec<Ev>) -> bool {
        let mut boom = || match panic_in {
            Some(0) => true,
            Some(n) => {
                panic_in = Some(n - 1);
                false
            }
            None => false,
        };
        for l in 0..level {
            if boom() {
                out.push(Ev::TestPanics(l, seq));
                return true;
            }
            let n = self.asked[l];
            self.asked[l] += 1;
            let r = match self.rules[l] {
                Rule::Mask(m) => m >> (value % 16) & 1 == 1,
                Rule::Every(k) => n % k == 0,
            };
            out.push(Ev::Test(l, seq, r));
            if !r {
                return false;
            }
        }
        if boom() {
            out.push(Ev::GotPanics(obs, seq));
            return true;
        }
        out.push(Ev::Got(obs, seq));
        false
    }
}

type Heads<A, B, C> = (Option<Subject>, Option<Shared<A>>, Option<Shared<B>>, Option<Shared<C>>);

fn history<A, B, C>(rng: &mut Rng, st: &mut Stats, w: &Rc<World>, subject: Subject, heads: Heads<A, B, C>, rules: Vec<Rule>) -> Case
where
    A: IObservable<Item> + 'static,
    B: IObservable<Item> + 'static,
    C: IObservable<Item> + 'static,
    A::Subscription<Obs>: 'static,
    B::Subscription<Obs>: 'static,
    C::Subscription<Obs>: 'static,
{
    let inner = Rc::clone(&subject.0);
    drop(subject);
    let heads = Rc::new(RefCell::new(heads));
    let pool: Rc<RefCell<Pool>> = Rc::default();
    let mut model = Model { rules: rules.clone(), asked: vec![0; 3] };
    let observers = Rc::new(Cell::new(0));
    let subscribe = {
        let (heads, inner, pool, w, observers) = (Rc::clone(&heads), Rc::clone(&inner), Rc::clone(&pool), Rc::clone(w), Rc::clone(&observers));
        move |level: usize| -> Option<usize> {
            let h = heads.borrow();
            let id = observers.get();
            let under = inner.next.get();
            let obs = || Obs { id, world: Rc::clone(&w), _tok: Tok::new() };
            let sub: Box<dyn Held> = match level {
                0 => Box::new(h.0.as_ref()?.subscribe(obs())),
                1 => Box::new(h.1.as_ref()?.subscribe(obs())),
                2 => Box::new(h.2.as_ref()?.subscribe(obs())),
                _ => Box::new(h.3.as_ref()?.subscribe(obs())),
            };
            observers.set(id + 1);
            pool.borrow_mut().push((id, level, under, sub));
            Some(under)
        }
    };
    let mut seq = 0;
    let mut shape = vec![];
    let (mut passed, mut tested, mut most) = (0u64, 0u64, 0);
    let long = !cfg!(miri) && rng.chance(1, 1000);
    if long {
        st.add("long_histories", 1);
    }
    for _ in 0..if long { rng.range(300, 1500) } else { rng.range(3, 30) } {
        match rng.below(10) {
            0 | 1 => {
                let level = rng.below(4);
                let before = inner.next.get();
                if subscribe(level).is_some() {
                    ensure!(
                        inner.next.get() == before + 1,
                        "subscribing through {level} filters made {} underlying subscriptions",
                        inner.next.get() - before
                    );
                    shape.push((0, level));
                }
            }
            2 => {
                let mut p = pool.borrow_mut();
                if !p.is_empty() {
                    let i = rng.below(p.len());
                    let x = p.swap_remove(i);
                    drop(p);
                    shape.push((1, x.1));
                    drop(x);
                }
            }
            3 if rng.chance(1, 3) => {
                let k = rng.below(4);
                let mut h = heads.borrow_mut();
                match k {
                    0 => h.0 = None,
                    1 => h.1 = None,
                    2 => h.2 = None,
                    _ => h.3 = None,
                }
                shape.push((2, k));
            }
            _ => {
                let value = rng.below(16) as u8;
                // what the subject does: every observer in order of subscription
                let targets: Vec<usize> = inner.slots.borrow().iter().map(|s| s.0).collect();
                let mut reentered = None;
                for id in targets {
                    let Some(&(_, ptr)) = inner.slots.borrow().iter().find(|s| s.0 == id) else { continue };
                    let (obs, level) = {
                        let p = pool.borrow();
                        let Some(x) = p.iter().find(|x| x.2 == id) else {
                            return Err(Viol(format!("underlying subscription {id} is still held after its filtered one was released")));
                        };
                        (x.0, x.1)
                    };
                    let panic_in = rng.chance(1, 12).then(|| rng.below(4));
                    w.panic_in.set(panic_in);
                    w.log.borrow_mut().clear();
                    let mut want = vec![];
                    let panics = model.calls(level, obs, seq, value, panic_in, &mut want);
                    if rng.chance(1, 8) {
                        let act = rng.below(2);
                        let (pool, subscribe) = (Rc::clone(&pool), subscribe.clone());
                        let r = rng.next() as usize;
                        *w.reenter.borrow_mut() = Some(Box::new(move |me| {
                            if act == 0 {
                                subscribe(r % 4);
                            } else {
                                let mut p = pool.borrow_mut();
                                let n = p.len();
                                if n > 0 && p[r % n].0 != me {
                                    let x = p.swap_remove(r % n);
                                    drop(p);
                                    drop(x);
                                }
                            }
                        }));
                        reentered = Some(act);
                    }
                    inner.running.set(Some(id));
                    let item = Item { seq, value, check: seal(seq, value), _tok: Tok::new() };
                    let live = ledger::live();
                    // SAFETY: the slot is registered, so its observer is alive and not running
                    let r = guarded(|| unsafe { (*ptr).next(item) });
                    inner.running.set(None);
                    let quiet = w.reenter.borrow_mut().take().is_some() || reentered.is_none();
                    w.panic_in.set(None);
                    match r {
                        Ok(()) => ensure!(!panics, "a callback's panic disappeared"),
                        Err(Caught::Injected) => ensure!(panics, "a panic appeared twice"),
                        Err(Caught::Code(m)) | Err(Caught::Harness(m)) => return Err(Viol(m)),
                    }
                    let got = w.log.borrow().clone();
                    ensure!(
                        got == want,
                        "item {seq} (value {value}) to observer {obs} behind {level} filters {:?}: calls {got:?} instead of {want:?}",
                        &rules[..level.min(3)]
                    );
                    if let Some(m) = w.wrong.borrow_mut().take() {
                        return Err(Viol(m));
                    }
                    if quiet {
                        ensure!(
                            ledger::live() == live - 1,
                            "an item of an ended delivery is still held, or something else was released: {} live instead of {}",
                            ledger::live(),
                            live - 1
                        );
                    }
                    tested += want.iter().filter(|e| matches!(e, Ev::Test(..))).count() as u64;
                    passed += want.iter().filter(|e| matches!(e, Ev::Got(..))).count() as u64;
                    st.add(if panics { "deliveries_that_panic" } else { "deliveries" }, 1);
                    shape.push((3, want.len() * 4 + level));
                }
                if let Some(a) = reentered {
                    st.add(if a == 0 { "subscriptions_in_callbacks" } else { "releases_in_callbacks" }, 1);
                }
                seq += 1;
            }
        }
        let p = pool.borrow();
        most = most.max(p.len());
        let mut held: Vec<usize> = inner.slots.borrow().iter().map(|s| s.0).collect();
        let mut want: Vec<usize> = p.iter().map(|x| x.2).collect();
        held.sort();
        want.sort();
        ensure!(held == want, "underlying subscriptions {held:?} are held while the live filtered ones belong to {want:?}");
    }
    st.add("items_passed", passed);
    st.add("tests", tested);
    st.max("max_subscriptions", most as u64);
    if passed > 0 && tested > passed {
        st.distinct((&shape, format!("{rules:?}")));
    }
    st.sample(|| format!("rules {rules:?}: {tested} tests, {passed} receptions, up to {most} subscriptions, steps {shape:?}"));
    if rng.chance(1, 2) {
        *heads.borrow_mut() = (None, None, None, None);
        pool.borrow_mut().clear();
    } else {
        pool.borrow_mut().clear();
        *heads.borrow_mut() = (None, None, None, None);
    }
    ensure!(inner.slots.borrow().is_empty(), "an underlying subscription outlives everything");
    Ok(())
}

fn case(rng: &mut Rng, st: &mut Stats) -> Case {
    ledger::reset();
    {
        let w: Rc<World> = Rc::default();
        let mut rules: Vec<Rule> = vec![];
        for _ in 0..3 {
            rules.push(match rng.below(8) {
                0 => Rule::Mask(0),
                1 => Rule::Mask(u16::MAX),
                2 | 3 => Rule::Every(rng.range(1, 4)),
                _ => Rule::Mask(rng.next() as u16 | rng.next() as u16),
            });
        }
        let pred = |l: usize| Pred { level: l, rule: rules[l].clone(), asked: Cell::new(0), world: Rc::clone(&w), _tok: Tok::new() };
        let s = Subject(Rc::default(), Rc::new(Tok::new()));
        // closures and hand-written predicates in turn
        let closure = |p: Pred| move |i: &Item| p.ask(i);
        match rng.below(3) {
            0 => {
                let a = Shared(Rc::new(s.clone().filter(pred(0))));
                let b = Shared(Rc::new(a.clone().filter(closure(pred(1)))));
                let c = Shared(Rc::new(b.clone().filter(pred(2))));
                history(rng, st, &w, s.clone(), (Some(s), Some(a), Some(b), Some(c)), rules)?;
            }
            1 => {
                let a = Shared(Rc::new(s.clone().filter(closure(pred(0)))));
                let b = Shared(Rc::new(a.clone().filter(pred(1))));
                let c = Shared(Rc::new(b.clone().filter(closure(pred(2)))));
                history(rng, st, &w, s.clone(), (Some(s), Some(a), Some(b), Some(c)), rules)?;
            }
            _ => {
                // stacked directly, without shared ownership in between
                let a = Shared(Rc::new(s.clone().filter(pred(0))));
                // the same predicates cannot be used twice, so the levels below are their own chain
                let c = Shared(Rc::new(s.clone().filter(pred(0)).filter(pred(1)).filter(closure(pred(2)))));
                drop(a);
                let mut h: Heads<Subject, Subject, _> = (Some(s.clone()), None, None, Some(c));
                if rng.chance(1, 3) {
                    h.0 = None;
                }
                history(rng, st, &w, s, h, rules)?;
            }
        }
    }
    ledger::balanced().map_err(|m| Viol(format!("after everything was dropped: {m}")))
}

// ---- borrowed and plain items ---------------------------------------------------------------------
#[derive(Default)]
struct List<T>(RefCell<Vec<T>>);
struct Replay<'a, T>(&'a List<T>);
impl<T: Clone> IObservable<T> for Replay<'_, T> {
    type Subscription<U: IObserver<T>> = U;
    /// hands everything over while subscribing
    fn subscribe<U: IObserver<T>>(&self, mut observer: U) -> U {
        for x in self.0 .0.borrow().iter() {
            observer.next(x.clone())
        }
        observer
    }
}
struct Into_<'a, T>(&'a RefCell<Vec<T>>);
impl<T> IObserver<T> for Into_<'_, T> {
    fn next(&mut self, item: T) {
        self.0.borrow_mut().push(item)
    }
}
fn replay<T: Clone + PartialEq + std::fmt::Debug>(v: Vec<T>, f: impl Fn(&T) -> bool, g: impl Fn(&T) -> bool, times: usize) -> Case {
    let want: Vec<T> = v.iter().filter(|x| f(x)).filter(|x| g(x)).cloned().collect();
    let list = List(RefCell::new(v));
    let o = Replay(&list).filter(&f).filter(&g);
    for _ in 0..times {
        let got = RefCell::new(vec![]);
        let s = o.subscribe(Into_(&got));
        drop(s);
        ensure!(*got.borrow() == want, "replay: {:?} instead of {want:?}", got.borrow());
    }
    Ok(())
}
fn plain(rng: &mut Rng, st: &mut Stats) -> Case {
    let n = if !cfg!(miri) && rng.chance(1, 500) { *rng.pick(&[300, 3000, 70_000]) } else { rng.below(12) };
    let (a, b) = (rng.range(1, 4), rng.below(4));
    let times = rng.range(1, 3);
    let text: String = (0..n * 3).map(|_| *rng.pick(&['x', 'é', '語', ' '])).collect();
    let nums: Vec<usize> = (0..n).map(|_| rng.below(20)).collect();
    replay(nums.clone(), |x| x % a == 0, |x| *x > b, times)?;
    replay(text.split(' ').collect::<Vec<&str>>(), |x| x.len() > a, |x| !x.contains('x'), times)?;
    replay(vec![(); n], |_| a > 1, |_| b > 0, times)?;
    replay(nums.iter().map(|x| vec![*x; x % 3]).collect(), |x| !x.is_empty(), |x| x[0] % 2 == b % 2, times)?;
    st.add("replays", 4);
    if n > 2 {
        st.distinct((nums, text, a, b));
    }
    Ok(())
}

fn main() {
    let a = Args::parse();
    assert_eq!(a.prop, "C28");
    let mut r = Report::new(&a);
    r.part("histories", a.cases(200_000, 10), case);
    r.part("plain", a.cases(20_000, 6), plain);
    r.finish(
        30_000,
        &["deliveries", "deliveries_that_panic", "items_passed", "tests", "subscriptions_in_callbacks", "releases_in_callbacks", "replays"],
    );
}
