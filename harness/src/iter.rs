//! Iterative pipelines over the real stages, type-erased, with their list-level reference.
use crate::grammar::*;
use crate::ledger::Tok;
use parcom_core::{
    IterativeParser, IterativeParserOnce, IterativeParserState, ParseError, ParseResult, Parser,
    Sequence,
};
use parcom_parsers::{IterativeParserExtension, ParserExtension};
use std::cell::Cell;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum Src {
    Repeat,
    Optional,
    /// passes every error of the item parser on, also recoverable ones
    Custom,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum Sink {
    Collect,
    Fold,
}

#[derive(Debug, Clone, Copy, Hash)]
pub struct Stage {
    pub id: u32,
    pub mode: Mode,
    pub k: StageK,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum StageK {
    MapEach,
    MapWhile(u64),
    TryMapEach(u64, bool),
    Scan,
    Take(usize),
}

fn b<T>(v: T) -> Box<T> {
    Box::new(v)
}

// ---------------------------------------------------------------- reference

pub fn scan_step(st: &mut u64, v: &V) -> u64 {
    *st = st.wrapping_mul(31).wrapping_add(hash_of(v, 7));
    *st
}

pub fn reference(
    rf: &mut Reference<'_>,
    id: u32,
    src: Src,
    item: &Node,
    stages: &[Stage],
    sink: Sink,
    pos: usize,
) -> RefRes {
    struct St {
        left: Vec<usize>,
        scan: Vec<u64>,
        spent: bool,
    }
    let mut st = St {
        left: stages
            .iter()
            .map(|s| if let StageK::Take(n) = s.k { n } else { 0 })
            .collect(),
        scan: vec![0; stages.len()],
        spent: false,
    };
    /// pull the next item out of the first `n` stages; the position is where the pull stopped
    fn pull(
        rf: &mut Reference<'_>,
        src: Src,
        item: &Node,
        stages: &[Stage],
        st: &mut St,
        n: usize,
        pos: usize,
    ) -> Result<(Option<V>, usize), RefErr> {
        let Some(i) = n.checked_sub(1) else {
            return match src {
                Src::Repeat => match rf.eval(item, pos) {
                    Ok((v, p)) => Ok((Some(v), p)),
                    Err((e, true)) => Err((e, true)),
                    Err((_, false)) => {
                        rf.recovered += 1;
                        Ok((None, pos))
                    }
                },
                Src::Optional => {
                    if st.spent {
                        return Ok((None, pos));
                    }
                    st.spent = true;
                    match rf.eval(item, pos) {
                        Ok((v, p)) => Ok((Some(v), p)),
                        Err((e, true)) => Err((e, true)),
                        Err((_, false)) => {
                            rf.recovered += 1;
                            Ok((None, pos))
                        }
                    }
                }
                Src::Custom => rf.eval(item, pos).map(|(v, p)| (Some(v), p)),
            };
        };
        let s = &stages[i];
        match s.k {
            StageK::Take(_) => {
                if st.left[i] == 0 {
                    return Ok((None, pos));
                }
                let r = pull(rf, src, item, stages, st, i, pos)?;
                if r.0.is_some() {
                    st.left[i] -= 1;
                }
                Ok(r)
            }
            k => {
                let r = pull(rf, src, item, stages, st, i, pos);
                let (v, p) = match r {
                    Ok((Some(v), p)) => (v, p),
                    Ok((None, p)) => return Ok((None, p)),
                    Err((e, t)) => {
                        return Err(match k {
                            StageK::TryMapEach(..) => (EV::From(b(e)), t),
                            _ => (e, t),
                        })
                    }
                };
                rf.call_event(s.id, &v);
                match k {
                    StageK::MapEach => Ok((Some(V::F(s.id, b(v))), p)),
                    StageK::MapWhile(salt) => Ok((
                        match decide(salt, &v, false) {
                            Out::Ok => Some(V::F(s.id, b(v))),
                            _ => None,
                        },
                        p,
                    )),
                    StageK::TryMapEach(salt, fatal) => match decide(salt, &v, fatal) {
                        Out::Ok => Ok((Some(V::F(s.id, b(v))), p)),
                        Out::Miss => Ok((None, p)),
                        Out::Fatal => Err((EV::Rejected(s.id, b(v)), true)),
                    },
                    StageK::Scan => {
                        let x = scan_step(&mut st.scan[i], &v);
                        Ok((Some(V::Scan(s.id, x, b(v))), p))
                    }
                    StageK::Take(_) => unreachable!(),
                }
            }
        }
    }

    let mut out = Vec::new();
    let mut pos = pos;
    loop {
        if rf.over {
            return Err((EV::Prim, true));
        }
        match pull(rf, src, item, stages, &mut st, stages.len(), pos) {
            Ok((Some(v), p)) => {
                if sink == Sink::Fold {
                    rf.call_event(id, &v);
                }
                out.push(v);
                pos = p;
            }
            Ok((None, p)) => {
                return match sink {
                    Sink::Collect => Ok((V::Coll(out, None), pos)),
                    Sink::Fold => Ok((V::Fold(id, out), p)),
                }
            }
            Err((e, true)) => return Err((e, true)),
            Err((e, false)) => {
                return match sink {
                    Sink::Collect => Ok((V::Coll(out, Some(b(e))), pos)),
                    Sink::Fold => Err((e, false)),
                }
            }
        }
    }
}

// ---------------------------------------------------------------- type erasure

type NextRes<S> = ParseResult<S, Option<Va>, Er>;

pub trait StateObj<S: Sequence> {
    fn next<'a>(&'a mut self, s: S) -> Pin<Box<dyn Future<Output = NextRes<S>> + 'a>>
    where
        S: 'a;
}

pub struct BoxState<S: Sequence>(Box<dyn StateObj<S>>);

impl<S: Sequence + 'static> IterativeParserState<S> for BoxState<S> {
    type Output = Va;
    type Error = Er;
    async fn parse_next(&mut self, input: S) -> NextRes<S> {
        self.0.next(input).await
    }
}

/// erase the error of a stage
pub trait IntoEr: ParseError {
    fn into_er(self) -> Er;
}
impl IntoEr for Er {
    fn into_er(self) -> Er {
        self
    }
}
impl IntoEr for Er2 {
    fn into_er(self) -> Er {
        self.0
    }
}

struct Held<T, P: 'static> {
    // dropped before the owner it borrows from
    state: T,
    _owner: Option<(Rc<P>, Option<Rc<&'static P>>)>,
}

impl<S, T, P> StateObj<S> for Held<T, P>
where
    S: Sequence,
    T: IterativeParserState<S, Output = Va>,
    T::Error: IntoEr,
{
    fn next<'a>(&'a mut self, s: S) -> Pin<Box<dyn Future<Output = NextRes<S>> + 'a>>
    where
        S: 'a,
    {
        Box::pin(async move {
            self.state
                .parse_next(s)
                .await
                .map_err(|(e, r)| (e.into_er(), r))
        })
    }
}

type StateFn<S> = Rc<dyn Fn() -> BoxState<S>>;

pub struct DynIter<S: Sequence> {
    by_ref: StateFn<S>,
    by_val: StateFn<S>,
}

impl<S: Sequence> Clone for DynIter<S> {
    fn clone(&self) -> Self {
        DynIter {
            by_ref: Rc::clone(&self.by_ref),
            by_val: Rc::clone(&self.by_val),
        }
    }
}

impl<S: Sequence + 'static> IterativeParserOnce<S> for DynIter<S> {
    type Output = Va;
    type Error = Er;
    type StateOnce = BoxState<S>;
    fn parse_iterative_once(self) -> BoxState<S> {
        (self.by_val)()
    }
}
impl<S: Sequence + 'static> IterativeParser<S> for DynIter<S> {
    type State<'a>
        = BoxState<S>
    where
        Self: 'a;
    fn parse_iterative(&self) -> BoxState<S> {
        (self.by_ref)()
    }
}

impl<S: Sequence + 'static> DynIter<S> {
    fn from_iterative<P, M>(mode: Mode, make: M) -> DynIter<S>
    where
        P: IterativeParser<S, Output = Va> + 'static,
        P::Error: IntoEr,
        M: Fn() -> P + 'static,
    {
        let make = Rc::new(make);
        let shared = Rc::new(make());
        let uses = Cell::new(0);
        let r: StateFn<S> = Rc::new(move || {
            let owner = Rc::clone(&shared);
            // SAFETY: the state is dropped before `_owner` releases the parser.
            let p: &'static P = unsafe { &*Rc::as_ptr(&owner) };
            uses.set(uses.get() + 1);
            // a reference to an iterative parser is one, too
            match uses.get() % 3 {
                0 => {
                    let r = Rc::new(p);
                    // SAFETY: as above
                    let pp: &'static &'static P = unsafe { &*Rc::as_ptr(&r) };
                    BoxState(Box::new(Held {
                        state: <&P as IterativeParser<S>>::parse_iterative(pp),
                        _owner: Some((owner, Some(r))),
                    }))
                }
                1 => BoxState(Box::new(Held {
                    state: p.parse_iterative(),
                    _owner: Some((owner, None)),
                })),
                _ => BoxState(Box::new(Held {
                    state: <&P as IterativeParserOnce<S>>::parse_iterative_once(p),
                    _owner: Some((owner, None)),
                })),
            }
        });
        let o: StateFn<S> = Rc::new(move || {
            let p = make();
            BoxState(Box::new(Held::<_, P> {
                state: p.parse_iterative_once(),
                _owner: None,
            }))
        });
        match mode {
            Mode::Ref => DynIter {
                by_ref: Rc::clone(&r),
                by_val: r,
            },
            Mode::Once => DynIter {
                by_ref: Rc::clone(&o),
                by_val: o,
            },
            Mode::Inherit => DynIter {
                by_ref: r,
                by_val: o,
            },
        }
    }
}

/// an iterative parser of ours whose errors all come through
struct Custom<S>(Dyn<S>);
struct CustomState<S>(Dyn<S>);
impl<S: Sequence + 'static> IterativeParserState<S> for CustomState<S> {
    type Output = Va;
    type Error = Er;
    async fn parse_next(&mut self, input: S) -> NextRes<S> {
        self.0.parse(input).await.map(|(v, r)| (Some(v), r))
    }
}
impl<S: Sequence + 'static> IterativeParserOnce<S> for Custom<S> {
    type Output = Va;
    type Error = Er;
    type StateOnce = CustomState<S>;
    fn parse_iterative_once(self) -> CustomState<S> {
        CustomState(self.0)
    }
}
impl<S: Sequence + 'static> IterativeParser<S> for Custom<S> {
    type State<'a>
        = CustomState<S>
    where
        Self: 'a;
    fn parse_iterative(&self) -> CustomState<S> {
        CustomState(self.0.clone())
    }
}

struct ScanSt {
    n: u64,
    _t: Tok,
}
impl Clone for ScanSt {
    fn clone(&self) -> Self {
        ScanSt {
            n: self.n,
            _t: Tok::new(),
        }
    }
}

struct Acc {
    vs: Vec<V>,
    t: Vec<Tok>,
}
impl Clone for Acc {
    fn clone(&self) -> Self {
        Acc {
            vs: self.vs.clone(),
            t: vec![Tok::new()],
        }
    }
}

pub fn build<S: Input>(
    id: u32,
    mode: Mode,
    src: Src,
    item: Dyn<S>,
    stages: &[Stage],
    sink: Sink,
) -> Dyn<S> {
    let mut it = match src {
        Src::Repeat => DynIter::from_iterative(mode, move || item.clone().repeat()),
        Src::Optional => DynIter::from_iterative(mode, move || item.clone().optional()),
        Src::Custom => DynIter::from_iterative(mode, move || Custom(item.clone())),
    };
    for s in stages {
        let inner = it;
        let sid = s.id;
        it = match s.k {
            StageK::MapEach => DynIter::from_iterative(s.mode, move || {
                inner.clone().map_each(move |v: Va| {
                    event(sid, hash_of(&v.v, 0));
                    v.wrap(|v| V::F(sid, b(v)))
                })
            }),
            StageK::MapWhile(salt) => DynIter::from_iterative(s.mode, move || {
                inner.clone().map_while(move |v: Va| {
                    event(sid, hash_of(&v.v, 0));
                    match decide(salt, &v.v, false) {
                        Out::Ok => Some(v.wrap(|v| V::F(sid, b(v)))),
                        _ => None,
                    }
                })
            }),
            StageK::TryMapEach(salt, fatal) => DynIter::from_iterative(s.mode, move || {
                inner.clone().try_map_each(move |v: Va| {
                    event(sid, hash_of(&v.v, 0));
                    match decide(salt, &v.v, fatal) {
                        Out::Ok => Ok(v.wrap(|v| V::F(sid, b(v)))),
                        o => Err(Er2(Er {
                            e: EV::Rejected(sid, b(v.v)),
                            term: o == Out::Fatal,
                            t: v.t,
                        })),
                    }
                })
            }),
            StageK::Scan => DynIter::from_iterative(s.mode, move || {
                let init = ScanSt {
                    n: 0,
                    _t: Tok::new(),
                };
                inner.clone().scan(init, move |st: &mut ScanSt, v: Va| {
                    event(sid, hash_of(&v.v, 0));
                    let x = scan_step(&mut st.n, &v.v);
                    v.wrap(|v| V::Scan(sid, x, b(v)))
                })
            }),
            StageK::Take(n) => DynIter::from_iterative(s.mode, move || inner.clone().take(n)),
        };
    }
    match sink {
        Sink::Collect => Dyn::from_parser(
            mode,
            move || it.clone().collect::<Vec<Va>>(),
            |r| match r {
                Ok(((vs, e), r)) => {
                    let mut t = Vec::new();
                    let mut out = Vec::new();
                    for v in vs {
                        out.push(v.v);
                        t.extend(v.t);
                    }
                    let e = e.map(|e| {
                        t.extend(e.t);
                        b(e.e)
                    });
                    Ok((
                        Va {
                            v: V::Coll(out, e),
                            t,
                        },
                        r,
                    ))
                }
                Err((e, r)) => Err((e, r)),
            },
        ),
        Sink::Fold => {
            let fold = move || {
                let init = Acc {
                    vs: Vec::new(),
                    t: vec![Tok::new()],
                };
                it.clone().fold(init, move |mut a: Acc, v: Va| {
                    event(id, hash_of(&v.v, 0));
                    a.vs.push(v.v);
                    a.t.extend(v.t);
                    a
                })
            };
            // the output of a fold does not tell the node, so it is put in here
            let id2 = id;
            Dyn::from_parser(
                mode,
                move || {
                    let f = fold();
                    ParserExtension::map(f, move |a: Acc| Va {
                        v: V::Fold(id2, a.vs),
                        t: a.t,
                    })
                },
                |r| r,
            )
        }
    }
}
