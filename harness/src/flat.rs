//! Flat workloads of any length: repetitions, iterative collections, parenthesis-free expressions and
//! lives of a buffered stream. Every callback and destructor marks that it ran (and where on the
//! stack). Used by the monitors of C27 (stack), C31 (cost) and C32 (retention).
use crate::driver::{Case, Viol};
use crate::exec::{run, run_for};
use crate::grammar::{log_reset, Er, Input, Va, V};
use crate::rng::Rng;
use parcom_core::{ParseError, Parser, ParserOnce};
use parcom_parsers::bin_expr::{Associativity, Operator};
use parcom_parsers::{BinExprParser, IterativeParserExtension, ParserExtension};
use parcom_sequence_core::{
    BufferWriter, SequenceBuffer, SequenceBuilder, SequenceControl, SequenceLoader, SequenceSource,
};
use parcom_sequences::generic::GenericSequenceBuilder;
use parcom_sequences::BufferStrategy;
use std::cell::Cell;
use std::future::Future;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll, Waker};

pub const STACK: usize = 256 << 10;

thread_local! {
    static LOW: Cell<usize> = const { Cell::new(usize::MAX) };
    static HIGH: Cell<usize> = const { Cell::new(0) };
    static MARKS: Cell<usize> = const { Cell::new(0) };
}
/// (lowest, highest stack address, marks) since the last call
pub fn marks() -> (usize, usize, usize) {
    (LOW.replace(usize::MAX), HIGH.replace(0), MARKS.replace(0))
}
#[inline(never)]
pub fn mark() {
    let x = 0u8;
    let a = std::hint::black_box(&x) as *const u8 as usize;
    LOW.set(LOW.get().min(a));
    HIGH.set(HIGH.get().max(a));
    MARKS.set(MARKS.get() + 1);
}

// ---- parses ---------------------------------------------------------------------------------------
struct Op(usize, bool);
impl Operator for Op {
    fn precedence(&self) -> usize {
        self.0
    }
    fn associativity(&self) -> Associativity {
        if self.1 {
            Associativity::Right
        } else {
            Associativity::Left
        }
    }
}
/// an expression value without depth of its own
struct Flat(usize);
impl From<Va> for Flat {
    fn from(_: Va) -> Flat {
        mark();
        Flat(1)
    }
}
impl From<(Flat, Op, Flat)> for Flat {
    fn from((a, _, b): (Flat, Op, Flat)) -> Flat {
        mark();
        Flat(a.0 + b.0)
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Shape {
    Repeat,
    RepeatOnce,
    RepeatOfChoices,
    RepeatOfPairs,
    RepeatThenError,
    Collect,
    CollectStages,
    CollectTaken,
    CollectRejected,
    Fold,
    FoldOnce,
    Left,
    Right,
    Mixed,
    Ascending,
    Descending,
    RandomPrecedence,
    ExprThenError,
    Abandoned,
}
use Shape::*;
pub const SHAPES: [Shape; 19] = [
    Repeat, RepeatOnce, RepeatOfChoices, RepeatOfPairs, RepeatThenError, Collect, CollectStages,
    CollectTaken, CollectRejected, Fold, FoldOnce, Left, Right, Mixed, Ascending, Descending,
    RandomPrecedence, ExprThenError, Abandoned,
];

pub fn input(shape: Shape, n: usize, seed: u64) -> Vec<char> {
    let mut rng = Rng::new(seed);
    let chain = |f: &mut dyn FnMut(usize) -> u32| -> Vec<char> {
        let mut v = vec!['a'];
        for i in 0..n / 2 {
            v.push(char::from_u32(0x1_0000 + f(i)).unwrap());
            v.push('a');
        }
        v
    };
    match shape {
        RepeatOfPairs => (0..n).map(|i| if i % 2 == 0 { 'a' } else { 'b' }).collect(),
        RepeatOfChoices => (0..n).map(|_| if rng.chance(1, 2) { 'a' } else { 'b' }).collect(),
        Left => chain(&mut |_| 10),
        Right => chain(&mut |_| 11),
        Mixed => chain(&mut |_| rng.below(4) as u32),
        Ascending => chain(&mut |i| 2 * i as u32),
        Descending => chain(&mut |i| (n - 2 * (i / 2)) as u32),
        RandomPrecedence => chain(&mut |_| rng.below(60_000) as u32),
        ExprThenError => {
            let mut v = chain(&mut |_| 11);
            v.push(char::from_u32(0x1_0000).unwrap());
            v.push('!');
            v
        }
        RepeatThenError => {
            let mut v = vec!['a'; n];
            v.push('!');
            v
        }
        _ => vec!['a'; n],
    }
}

fn expect<T: PartialEq + std::fmt::Debug>(shape: Shape, got: T, want: T) -> Case {
    if got != want {
        return Err(Viol(format!("{shape:?}: counted {got:?} instead of {want:?}")));
    }
    Ok(())
}

pub fn parse<S: Input>(shape: Shape, n: usize, s: S) -> Case {
    log_reset(u64::MAX);
    let a = || {
        S::the('a').map(|v| {
            mark();
            v
        })
    };
    fn ok<S, T, E>(r: Result<(T, S), (E, impl Sized)>, shape: Shape) -> Result<T, Viol> {
        match r {
            Ok((v, _)) => Ok(v),
            Err(_) => Err(Viol(format!("{shape:?}: the parse failed"))),
        }
    }
    let op = || {
        S::any().map(|v: Va| {
            mark();
            let V::Ch(c) = v.v else { unreachable!() };
            let k = c as usize - 0x1_0000;
            Op(k / 2, k % 2 == 1)
        })
    };
    match shape {
        Repeat => {
            let p = a().repeat();
            let r = run(p.parse(s)).done()?;
            expect(shape, ok(r, shape)?.0.len(), n)
        }
        RepeatOnce => {
            let r = run(a().repeat().parse_once(s)).done()?;
            expect(shape, ok(r, shape)?.0.len(), n)
        }
        RepeatOfChoices => {
            let p = S::the('b').or(a()).repeat();
            let r = run(p.parse(s)).done()?;
            expect(shape, ok(r, shape)?.0.len(), n)
        }
        RepeatOfPairs => {
            let p = a().join(S::the('b').optional()).repeat();
            let r = run(p.parse(s)).done()?;
            expect(shape, ok(r, shape)?.0.len(), n.div_ceil(2))
        }
        RepeatThenError => {
            let p = a().repeat().join(S::the('?'));
            let r = run(p.parse(s)).done()?;
            expect(shape, r.is_err(), true)
        }
        Collect => {
            let p = a().repeat().collect::<Vec<_>>();
            let r = run(p.parse(s)).done()?;
            expect(shape, ok(r, shape)?.0.len(), n)
        }
        CollectStages => {
            let p = a()
                .repeat()
                .map_each(|v| {
                    mark();
                    v
                })
                .scan(0usize, |c, _| {
                    mark();
                    *c += 1;
                    *c
                })
                .map_while(|c| if c == usize::MAX { None } else { Some(c) })
                .try_map_each(Ok::<usize, Er>)
                .take(usize::MAX)
                .collect::<Vec<_>>();
            let r = run(p.parse(s)).done()?;
            expect(shape, ok(r, shape)?.0.last().copied(), Some(n))
        }
        CollectTaken => {
            let p = a().repeat().take(n - 1).collect::<Vec<_>>();
            let r = run(p.parse_once(s)).done()?;
            expect(shape, ok(r, shape)?.0.len(), n - 1)
        }
        CollectRejected => {
            let p = a()
                .repeat()
                .scan(0usize, |c, _| {
                    *c += 1;
                    *c
                })
                .map_while(move |c| {
                    mark();
                    (c < n).then_some(c)
                })
                .collect::<Vec<_>>();
            let r = run(p.parse(s)).done()?;
            expect(shape, ok(r, shape)?.0.len(), n - 1)
        }
        Fold => {
            let p = a().repeat().fold(0usize, |c, _| {
                mark();
                c + 1
            });
            let r = run(p.parse(s)).done()?;
            expect(shape, ok(r, shape)?, n)
        }
        FoldOnce => {
            let p = a().repeat().map_each(|_| 1usize).fold(0usize, |c, x| {
                mark();
                c + x
            });
            let r = run(p.parse_once(s)).done()?;
            expect(shape, ok(r, shape)?, n)
        }
        Left | Right | Mixed | Ascending | Descending | RandomPrecedence => {
            let p = BinExprParser::<S, _, _, Flat>::new(a(), op());
            let r = run(p.parse(s)).done()?;
            let (e, reason) = ok(r, shape)?;
            expect(shape, reason.should_terminate(), false)?;
            expect(shape, e.0, n / 2 + 1)
        }
        ExprThenError => {
            let p = BinExprParser::<S, _, _, Flat>::new(
                a().map_err(|e| Er { term: true, ..e }),
                op(),
            );
            let r = run(p.parse_once(s)).done()?;
            match r {
                Ok(_) => Err(Viol("a terminating error was ignored".into())),
                Err((e, _)) => expect(shape, e.should_terminate(), true),
            }
        }
        Abandoned => {
            // dropped in the middle, if the input ever suspends
            let p = a().repeat().collect::<Vec<_>>();
            let mut polls = 0;
            let r = run_for(p.parse(s), n / 8, &mut polls);
            std::mem::drop(r);
            Ok(())
        }
    }
}

// ---- streams --------------------------------------------------------------------------------------
#[derive(Clone, Copy)]
pub struct Exact;
impl BufferStrategy for Exact {
    fn calc_capacity(&self, min: usize) -> usize {
        min
    }
}
pub struct Item(#[allow(dead_code)] u32);
impl Drop for Item {
    fn drop(&mut self) {
        mark()
    }
}
/// pieces of `size` items, n of them, then the end
pub struct Source {
    pub left: usize,
    pub size: usize,
}
impl SequenceSource for Source {
    type Item = Item;
    type Error = ();
    type Next<'a, C>
        = std::future::Ready<C::Result>
    where
        C: 'a + SequenceControl<Item = Item, Error = ()>;
    fn next<'a, C>(&'a mut self, control: C, _: usize) -> Self::Next<'a, C>
    where
        C: 'a + SequenceControl<Item = Item, Error = ()>,
    {
        mark();
        if self.left == 0 {
            return std::future::ready(control.finish());
        }
        self.left -= 1;
        let mut w = control.request_writer(self.size);
        for i in 0..self.size {
            let _ = w.push_item(Item(i as u32));
        }
        std::future::ready(w.advance())
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Life {
    /// append everything, drop the loader, then the consumer
    LoaderFirst,
    ConsumerFirst,
    /// the consumer goes in the middle of loading
    ConsumerFirstThenLoad,
    /// read everything, advance over everything at once, drop
    AdvanceAll,
    /// piece by piece
    AdvanceEach,
    /// advance and load in turns, with a backlog
    Follow,
    /// both ends dropped by different threads at once
    Together,
    /// many empty pieces through forced commits
    Empties,
    /// the whole drops with an enumeration having been made
    ReadThenDrop,
    /// look at the first piece many times, a backlog waiting behind it
    PeekEach,
}
use Life::*;
pub const LIVES: [Life; 10] = [
    LoaderFirst, ConsumerFirst, ConsumerFirstThenLoad, AdvanceAll, AdvanceEach, Follow, Together,
    Empties, ReadThenDrop, PeekEach,
];

pub fn live(life: Life, n: usize) -> Case {
    let size = if life == Empties { 0 } else { 2 };
    let (mut buf, mut loader) = GenericSequenceBuilder::verif_new(Arc::new(Exact))
        .build(Source { left: n, size });
    macro_rules! load {
        ($times:expr) => {
            for _ in 0..$times {
                let mut f = std::pin::pin!(loader.load());
                match f.as_mut().poll(&mut Context::from_waker(Waker::noop())) {
                    Poll::Ready(Ok(_)) => {}
                    _ => return Err(Viol("a load of ready data failed".into())),
                }
                loader.force_commit();
            }
        };
    }
    let count = |b: &_| -> usize {
        fn f<B: SequenceBuffer<Segment = [Item]>>(b: &B) -> usize {
            b.segments()
                .map(|s| {
                    mark();
                    s.len()
                })
                .sum()
        }
        f(b)
    };
    match life {
        LoaderFirst => {
            load!(n + 1);
            drop(loader);
            drop(buf);
        }
        ConsumerFirst => {
            load!(n + 1);
            drop(buf);
            drop(loader);
        }
        ConsumerFirstThenLoad => {
            load!(n / 2);
            drop(buf);
            load!(n / 2);
            drop(loader);
        }
        AdvanceAll => {
            load!(n + 1);
            let c = count(&buf);
            if c != n * size {
                return Err(Viol(format!("{c} items visible of {}", n * size)));
            }
            let r = buf.advance(n * size - 1);
            if r != 0 {
                return Err(Viol(format!("{r} left after advancing within the data")));
            }
            let r = buf.advance(5);
            if r != 4 {
                return Err(Viol(format!("{r} left instead of 4")));
            }
            drop(buf);
            drop(loader);
        }
        AdvanceEach => {
            load!(n + 1);
            drop(loader);
            for _ in 0..n * size {
                buf.advance(1);
                mark();
            }
            if count(&buf) != 0 {
                return Err(Viol("items left".into()));
            }
        }
        Follow => {
            load!(n / 2);
            for _ in 0..n / 2 {
                load!(1);
                buf.advance(size);
                mark();
            }
            drop(buf);
            drop(loader);
        }
        Together => {
            load!(n + 1);
            let here = Arc::new(AtomicUsize::new(0));
            let there = Arc::clone(&here);
            let meet = |a: &AtomicUsize| {
                a.fetch_add(1, Ordering::SeqCst);
                while a.load(Ordering::SeqCst) < 2 {
                    std::hint::spin_loop()
                }
            };
            let t = std::thread::Builder::new()
                .stack_size(STACK)
                .spawn(move || {
                    meet(&there);
                    drop(buf);
                })
                .unwrap();
            meet(&here);
            drop(loader);
            if t.join().is_err() {
                return Err(Viol("dropping the consumer panicked".into()));
            }
        }
        Empties => {
            load!(n + 1);
            if buf.advance(3) != 3 {
                return Err(Viol("advanced over items that do not exist".into()));
            }
            drop(buf);
            drop(loader);
        }
        PeekEach => {
            load!(n + 1);
            for _ in 0..n {
                if buf.segments().next().map(|s| s.len()) != Some(size) {
                    return Err(Viol("the first piece is not there".into()));
                }
                buf.advance(0);
                mark();
            }
            drop(buf);
            drop(loader);
        }
        ReadThenDrop => {
            load!(n);
            count(&buf);
            drop(buf);
            load!(1);
            drop(loader);
        }
    }
    Ok(())
}
