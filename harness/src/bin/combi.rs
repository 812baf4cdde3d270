//! Monitors of the combinator properties: C01-C08, C11, C12, C29.
use parcom_core::measured::IntoMeasured;
use parcom_core::primitive::BytesDelta;
use parcom_core::{Never, ParseError, Parser, ParserOnce, RewindSequence};
use parcom_parsers::primitive::{any_char, any_item, atom, the_char, the_item};
use parcom_util::error::{Fatal, Miss};
use parcom_util::{Either, EitherBoth};
use parcom_verif::driver::*;
use parcom_verif::ensure;
use parcom_verif::exec::{self, now, run, Run};
use parcom_verif::grammar::*;
use parcom_verif::huge::endless;
use parcom_verif::iter::{Sink, Src};
use parcom_verif::ledger;
use parcom_verif::rng::Rng;
use parcom_verif::tseq::{Doc, Items, Kind, Owned, TSeq, Text};
use std::rc::Rc;

/// Lend `s` for the duration of f. The parsers built in `f` do not outlive it.
fn with_str<R>(chars: &[char], f: impl FnOnce(&'static str) -> R) -> R {
    let s: String = chars.iter().collect();
    let st: &'static str = unsafe { &*(s.as_str() as *const str) };
    f(st)
}
fn with_items<R>(chars: &[char], f: impl FnOnce(&'static [char]) -> R) -> R {
    let st: &'static [char] = unsafe { &*(chars as *const [char]) };
    f(st)
}

struct Expect {
    seen: Seeing,
    log: Vec<Ev>,
    recovered: u64,
}

/// `None`: too much work for one case
fn expect(root: &Node, input: &[char], width: fn(char) -> usize) -> Option<Expect> {
    let mut r = Reference::new(root, input, width);
    let res = r.eval(root, 0);
    if r.over {
        return None;
    }
    let seen = Seeing::of_ref(&r, res);
    Some(Expect {
        seen,
        log: r.log,
        recovered: r.recovered,
    })
}

fn context(root: &Node, input: &[char]) -> String {
    format!("grammar {} on {}", root.show(), show_input(input))
}

fn differs(what: &str, root: &Node, input: &[char], want: &Expect, got: &Seeing) -> Case {
    ensure!(
        *got == want.seen,
        "{what}: {}: expected {:?} but got {:?}",
        context(root, input),
        want.seen,
        got
    );
    Ok(())
}

fn same_log(what: &str, root: &Node, input: &[char], want: &Expect, got: &[Ev]) -> Case {
    if got != want.log.as_slice() {
        let at = got
            .iter()
            .zip(&want.log)
            .position(|(a, b)| a != b)
            .unwrap_or(got.len().min(want.log.len()));
        return Err(Viol(format!(
            "{what}: {}: invocation {at} differs: expected {:?} but saw {:?} ({} expected, {} seen)",
            context(root, input),
            want.log.get(at),
            got.get(at),
            want.log.len(),
            got.len()
        )));
    }
    Ok(())
}

fn parse_with<S: Input>(d: &Dyn<S>, once: bool, s: S) -> Result<(Seeing, Vec<Ev>), Viol> {
    log_reset(u64::MAX);
    let r = if once {
        run(d.clone().parse_once(s)).done()?
    } else {
        run(d.parse(s)).done()?
    };
    let seen = Seeing::of(&r);
    Ok((seen, log_take()))
}

fn count_kinds(root: &Node, st: &mut Stats) {
    root.each(&mut |n| st.add(&format!("node_{}", n.kind()), 1));
}

fn random_doc<K: Kind>(rng: &mut Rng, input: &[char], pend: u8) -> Rc<Doc<K>> {
    let mut cuts = Vec::new();
    let style = rng.below(5);
    let mut at = 0;
    for (i, c) in input.iter().enumerate() {
        let cut = match style {
            0 => false,
            1 => true,
            2 => rng.chance(1, 4),
            _ => rng.chance(1, 2),
        };
        if cut && (i > 0 || rng.chance(1, 2)) {
            cuts.push(at);
            // empty segments
            while style != 1 && rng.chance(1, 4) {
                cuts.push(at);
            }
        }
        at += K::width(*c);
    }
    if rng.chance(1, 3) {
        cuts.push(at);
        if rng.chance(1, 2) {
            cuts.push(at);
        }
    }
    Doc::new(input, cuts, pend, rng.next())
}

fn outcome_class(s: &Seeing, st: &mut Stats) {
    match s {
        Seeing::Ok(..) => st.add("outcome_success", 1),
        Seeing::Err(_, true) => st.add("outcome_terminating", 1),
        Seeing::Err(_, false) => st.add("outcome_recoverable", 1),
    }
}

/// what a grammar case compares
#[derive(Clone, Copy, PartialEq)]
enum Focus {
    /// outcome and remaining input on in-memory inputs
    Meaning,
    /// outcomes of grammars full of terminating errors, and that nothing runs after one
    Fatal,
    /// invocation log
    Log,
    /// iterative pipelines
    Pipeline,
}

/// one grammar on one input
struct Cx<'a> {
    focus: Focus,
    root: &'a Node,
    input: &'a [char],
}

impl Cx<'_> {
    fn compare(&self, what: &str, want: &Expect, seen: &Seeing, log: &[Ev]) -> Case {
        let (root, input) = (self.root, self.input);
        let fatal = matches!(want.seen, Seeing::Err(_, true));
        if self.focus == Focus::Log {
            // the remaining input of a success is what the caller sees next
            if let (Seeing::Ok(_, a), Seeing::Ok(_, b)) = (&want.seen, seen) {
                ensure!(
                    a == b,
                    "{what}: {}: {a} units should remain but {b} do",
                    context(root, input)
                );
            }
        } else {
            differs(what, root, input, want, seen)?;
        }
        match self.focus {
            Focus::Meaning => {}
            Focus::Fatal if !fatal => {}
            _ => same_log(what, root, input, want, log)?,
        }
        Ok(())
    }
    /// parse by reference or by value, sometimes twice with the same parser
    fn on<S: Input>(
        &self,
        what: &str,
        want: &Expect,
        rng: &mut Rng,
        st: &mut Stats,
        mk: &dyn Fn() -> S,
    ) -> Case {
        let built = build::<S>(self.root);
        let once = rng.chance(1, 2);
        let uses = if rng.chance(1, 4) { 2 } else { 1 };
        for i in 0..uses {
            let once = once ^ (i == 1);
            let what = format!("{what} {}", if once { "by value" } else { "by reference" });
            st.add(if once { "by_value" } else { "by_reference" }, 1);
            let s = mk();
            let anchor = s.anchor();
            log_reset(u64::MAX);
            let r = if once {
                run(built.root.clone().parse_once(s)).done()?
            } else {
                run(built.root.parse(s)).done()?
            };
            let seen = Seeing::of(&r);
            let log = log_take();
            self.compare(&what, want, &seen, &log)?;
            if self.focus != Focus::Pipeline {
                // the caller can go back to where the parse began, whatever came of it
                let back = match r {
                    Ok((_, s)) => run(s.rewind(anchor)).done()?,
                    Err((_, l)) => run(l.rewind(anchor)).done()?,
                };
                let all = want_units::<S>(self.input);
                ensure!(
                    back.left() == all,
                    "{what}: {}: {} of {all} units remain after going back to the start",
                    context(self.root, self.input),
                    back.left()
                );
            }
        }
        Ok(())
    }
    fn on_text(&self, want: &Expect, rng: &mut Rng, st: &mut Stats) -> Case {
        with_str(self.input, |s| self.on("text", want, rng, st, &|| s))
    }
    fn on_items(&self, rng: &mut Rng, st: &mut Stats) -> Case {
        let Some(want) = expect(self.root, self.input, <&[char] as Input>::width) else {
            return Ok(());
        };
        st.add("on_items", 1);
        with_items(self.input, |s| self.on("items", &want, rng, st, &|| s))
    }
    fn on_doc<K: Kind>(&self, rng: &mut Rng, st: &mut Stats) -> Case
    where
        TSeq<K>: Input,
    {
        let Some(want) = expect(self.root, self.input, <TSeq<K> as Input>::width) else {
            return Ok(());
        };
        st.add("on_pieces", 1);
        let pend = *rng.pick(&[0u8, 0, 60, 160]);
        let doc = if rng.chance(1, 3) {
            Doc::new(self.input, vec![], 0, 0)
        } else {
            random_doc::<K>(rng, self.input, pend)
        };
        self.on("pieces", &want, rng, st, &|| TSeq::new(&doc))?;
        doc.check_misuse()
    }
    fn on_measured(&self, rng: &mut Rng, st: &mut Stats) -> Case {
        st.add("on_measured", 1);
        let seen = |total| Seen {
            total,
            text: vec![],
            units: 0,
        };
        if rng.chance(1, 2) {
            let Some(want) = expect(self.root, self.input, <MStr as Input>::width) else {
                return Ok(());
            };
            with_str(self.input, |s| {
                self.on("measured text", &want, rng, st, &|| {
                    s.into_measured_with(seen(s.len()))
                })
            })
        } else {
            let Some(want) = expect(self.root, self.input, <MItems as Input>::width) else {
                return Ok(());
            };
            with_items(self.input, |s| {
                self.on("measured items", &want, rng, st, &|| {
                    s.into_measured_with(SeenI(seen(s.len())))
                })
            })
        }
    }
}

fn want_units<S: Input>(input: &[char]) -> u64 {
    input.iter().map(|c| S::width(*c) as u64).sum()
}

fn grammar_case(focus: Focus, rng: &mut Rng, st: &mut Stats) -> Case {
    let mut cfg = GenCfg {
        depth: rng.range(1, 5),
        ..GenCfg::default()
    };
    match focus {
        Focus::Meaning => cfg.fatal = 8,
        Focus::Fatal => {
            cfg.fatal = 40;
            cfg.eat = 5;
        }
        Focus::Log => {
            cfg.eat = 6;
            cfg.fatal = 3;
        }
        Focus::Pipeline => {
            cfg.depth = rng.range(1, 3);
            cfg.iter = 10;
        }
    }
    if rng.chance(1, 2) {
        cfg.alphabet = vec!['a', 'b'];
    }
    cfg.modes = rng.chance(1, 2);
    let depth = cfg.depth;
    let (root, inputs) = {
        let mut g = Gen::new(rng, cfg);
        let root = if focus == Focus::Pipeline {
            g.iter(depth - 1)
        } else {
            g.node(depth)
        };
        let inputs: Vec<_> = (0..3).map(|_| g.sentence(&root)).collect();
        (root, inputs)
    };
    if focus != Focus::Pipeline && root.size() < 2 {
        st.add("trivial", 1);
        return Ok(());
    }
    count_kinds(&root, st);
    for input in &inputs {
        ledger::reset();
        let Some(want) = expect(&root, input, <&str as Input>::width) else {
            st.add("too_large", 1);
            continue;
        };
        outcome_class(&want.seen, st);
        st.add("recoveries", want.recovered);
        st.add("invocations", want.log.len() as u64);
        let fatal = matches!(want.seen, Seeing::Err(_, true));
        let cx = Cx {
            focus,
            root: &root,
            input,
        };
        cx.on_text(&want, rng, st)?;
        // the same on elements, or on an instrumented input that reports misuse, in pieces and with
        // suspensions, or measured
        match rng.below(6) {
            0 | 1 => cx.on_items(rng, st)?,
            2 => cx.on_doc::<Text>(rng, st)?,
            3 => cx.on_doc::<Items>(rng, st)?,
            4 => cx.on_measured(rng, st)?,
            _ => {}
        }
        let interesting = match focus {
            Focus::Meaning | Focus::Log => want.recovered > 0 || want.log.len() > 2,
            Focus::Fatal => fatal,
            Focus::Pipeline => want.log.len() > 1,
        };
        if interesting && st.distinct((&root, input)) && st.want_sample() {
            st.sample(|| format!("{} -> {:?}", context(&root, input), want.seen));
        }
    }
    Ok(())
}

fn long_cfg(rng: &mut Rng) -> GenCfg {
    GenCfg {
        depth: 1,
        fatal: 2,
        eat: 1,
        calls: false,
        lenient: true,
        modes: rng.chance(1, 2),
        alphabet: if rng.chance(1, 2) { vec!['a', 'b'] } else { GenCfg::default().alphabet },
        ..GenCfg::default()
    }
}

/// flat constructs over inputs of up to a few thousand elements
fn long_case(focus: Focus, huge: bool, rng: &mut Rng, st: &mut Stats) -> Case {
    let cfg = GenCfg { huge, ..long_cfg(rng) };
    let (root, inputs) = Gen::new(rng, cfg).long();
    for input in &inputs {
        ledger::reset();
        let Some(want) = expect(&root, input, <&str as Input>::width) else {
            st.add("too_large", 1);
            continue;
        };
        if want.log.len() > 100 {
            st.add("long_runs", 1);
        }
        st.max("max_invocations", want.log.len() as u64);
        let cx = Cx {
            focus,
            root: &root,
            input,
        };
        cx.on_text(&want, rng, st)?;
        match rng.below(6) {
            0 | 1 => cx.on_items(rng, st)?,
            2 => cx.on_doc::<Text>(rng, st)?,
            3 => cx.on_doc::<Items>(rng, st)?,
            4 if !huge => cx.on_measured(rng, st)?,
            _ => {}
        }
        if want.log.len() > 60_000 {
            st.add("huge_runs", 1);
        }
        if want.log.len() > 100 {
            st.distinct((&root, input));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C04

fn reuse_case(long: bool, rng: &mut Rng, st: &mut Stats) -> Case {
    if rng.chance(1, 2) {
        reuse_on::<Text>(long, rng, st)
    } else {
        reuse_on::<Items>(long, rng, st)
    }
}

fn reuse_on<Kd: Kind>(long: bool, rng: &mut Rng, st: &mut Stats) -> Case
where
    TSeq<Kd>: Input,
{
    let cfg = GenCfg {
        depth: rng.range(1, 4),
        iter: 6,
        ..if long { long_cfg(rng) } else { GenCfg::default() }
    };
    let cfg = GenCfg { modes: true, ..cfg };
    let depth = cfg.depth;
    let (root, inputs) = {
        let mut g = Gen::new(rng, cfg);
        if long {
            let (root, mut inputs) = g.long();
            inputs.push(g.sentence(&root));
            (root, inputs)
        } else {
            let root = if g.rng.chance(1, 3) {
                g.iter(depth - 1)
            } else {
                g.node(depth)
            };
            let inputs: Vec<_> = (0..4).map(|_| g.sentence(&root)).collect();
            (root, inputs)
        }
    };
    if root.size() < 2 {
        return Ok(());
    }
    count_kinds(&root, st);
    ledger::reset();
    // one parser, used for everything below
    let built = build::<TSeq<Kd>>(&root);
    // the same grammar with every node by reference and every node by value
    let all = |m: Mode| {
        fn set(n: &mut Node, m: Mode) {
            n.mode = m;
            match &mut n.k {
                K::Join(x, y)
                | K::Or(x, y)
                | K::UnifyOr(x, y)
                | K::UnifyErr(x, y)
                | K::Bin(x, y, _) => {
                    set(x, m);
                    set(y, m);
                }
                K::Opt(x)
                | K::Rep(x)
                | K::Map(x)
                | K::MapErr(x, _)
                | K::AndThen(x, ..)
                | K::Ref(x)
                | K::Boxed(x) => set(x, m),
                K::Iter(_, x, s, _) => {
                    set(x, m);
                    s.iter_mut().for_each(|s| s.mode = m)
                }
                _ => {}
            }
        }
        let mut r = root.clone();
        set(&mut r, m);
        r
    };
    let by_ref = build::<TSeq<Kd>>(&all(Mode::Ref));
    let by_val = build::<TSeq<Kd>>(&all(Mode::Once));
    for (i, input) in inputs.iter().enumerate() {
        let Some(want) = expect(&root, input, <TSeq<Kd> as Input>::width) else {
            st.add("too_large", 1);
            continue;
        };
        outcome_class(&want.seen, st);
        let once = rng.chance(1, 2);
        let cuts = rng.chance(1, 2).then(|| rng.next());
        let doc = || match cuts {
            None => Doc::<Kd>::new(input, vec![], 0, 0),
            Some(seed) => random_doc::<Kd>(&mut Rng::new(seed), input, (seed % 3) as u8 * 40),
        };
        // a fresh copy
        let (f, lf) = parse_with(&build::<TSeq<Kd>>(&all(Mode::Ref)).root, false, TSeq::new(&doc()))?;
        let (seen, ls) = parse_with(&built.root, once, TSeq::new(&doc()))?;
        ensure!(
            seen == f,
            "{}: mixed use {seen:?}, fresh copy {f:?}",
            context(&root, input)
        );
        ensure!(
            ls == lf,
            "{}: mixed use and a fresh copy invoke parsers differently",
            context(&root, input)
        );
        if ls.len() > 100 {
            st.add("long_runs", 1);
        }
        let (a, la) = parse_with(&by_ref.root, once, TSeq::new(&doc()))?;
        let (v, lv) = parse_with(&by_val.root, once, TSeq::new(&doc()))?;
        ensure!(
            a == v,
            "{}: by reference {a:?}, by value {v:?}",
            context(&root, input)
        );
        ensure!(
            la == lv,
            "{}: by reference and by value invoke parsers differently",
            context(&root, input)
        );
        ensure!(
            a == f && la == lf,
            "{}: used again {a:?}, fresh copy {f:?}",
            context(&root, input)
        );
        if st.distinct((&root, input)) && st.want_sample() {
            st.sample(|| format!("{} -> {:?}", context(&root, input), want.seen));
        }
        st.add("uses", 1);
        // abandon a use half way: dropped while suspended, or by a panic in a callback
        let other = &inputs[(i + 1) % inputs.len()];
        if expect(&root, other, <TSeq<Kd> as Input>::width).is_none() {
            continue;
        }
        match rng.below(3) {
            0 => {
                let d = random_doc::<Kd>(rng, other, 120);
                let mut p = 0;
                log_reset(u64::MAX);
                let max = 1 + rng.below(if long { 400 } else { 8 });
                for d2 in [&built, &by_ref] {
                    p = 0;
                    if let Run::Dropped = exec::run_for(d2.root.parse(TSeq::new(&d)), max, &mut p) {
                        st.add("abandoned_by_drop", 1);
                    }
                }
                let _ = p;
            }
            1 => {
                for d2 in [&built, &by_ref] {
                    let d = random_doc::<Kd>(rng, other, 0);
                    log_reset(rng.below(if long { 400 } else { 5 }) as u64);
                    match guarded(|| {
                        let _ = run(d2.root.parse(TSeq::new(&d)));
                    }) {
                        Err(Caught::Injected) => st.add("abandoned_by_panic", 1),
                        Err(Caught::Code(m)) => return Err(Viol(m)),
                        Err(Caught::Harness(m)) => panic!("{m}"),
                        Ok(()) => {}
                    }
                }
            }
            _ => {}
        }
    }
    if !long {
        overlapping::<Kd>(&root, &inputs, &built.root, rng, st)?;
        overlapping::<Kd>(&root, &inputs, &by_ref.root, rng, st)?;
    }
    Ok(())
}

/// several parses with one parser at the same time, taking turns at suspensions
fn overlapping<Kd: Kind>(root: &Node, inputs: &[Vec<char>], shared: &Dyn<TSeq<Kd>>, rng: &mut Rng, st: &mut Stats) -> Case
where
    TSeq<Kd>: Input,
{
    let n = rng.range(2, 4);
    let which: Vec<usize> = (0..n).map(|_| rng.below(inputs.len())).collect();
    let mut want = vec![];
    for i in &which {
        if expect(root, &inputs[*i], <TSeq<Kd> as Input>::width).is_none() {
            return Ok(());
        }
        let doc = Doc::<Kd>::new(&inputs[*i], vec![], 0, 0);
        want.push(parse_with(&build::<TSeq<Kd>>(root).root, false, TSeq::new(&doc))?);
    }
    let docs: Vec<Rc<Doc<Kd>>> = which.iter().map(|i| random_doc::<Kd>(rng, &inputs[*i], 150)).collect();
    let limits: Vec<usize> = (0..n)
        .map(|_| if rng.chance(1, 5) { 1 + rng.below(6) } else { usize::MAX })
        .collect();
    log_reset(u64::MAX);
    let logs: Vec<std::cell::RefCell<Vec<Ev>>> = (0..n).map(|_| Default::default()).collect();
    let mut turns = 0u64;
    let mut last = usize::MAX;
    let mut dice = Rng::new(rng.next());
    let futs: Vec<std::pin::Pin<Box<dyn std::future::Future<Output = Seeing> + '_>>> = docs
        .iter()
        .map(|d| {
            let s = TSeq::new(d);
            Box::pin(async move { Seeing::of(&shared.parse(s).await) }) as std::pin::Pin<Box<dyn std::future::Future<Output = Seeing> + '_>>
        })
        .collect();
    let got = exec::together(futs, &limits, &mut |k| dice.below(k), &mut |i, before| {
        log_swap(&mut logs[i].borrow_mut());
        if before && last != i {
            turns += 1;
            last = i;
        }
    })?;
    for i in 0..n {
        if let Some(g) = &got[i] {
            ensure!(
                *g == want[i].0 && *logs[i].borrow() == want[i].1,
                "{}: {:?} alone, but {g:?} while {} other parses with the same parser are under way",
                context(root, &inputs[which[i]]),
                want[i].0,
                n - 1
            );
            st.add("overlapping_uses", 1);
        } else {
            st.add("abandoned_by_drop", 1);
        }
    }
    st.add("turns_between_uses", turns);
    Ok(())
}

// ---------------------------------------------------------------- C05

fn split_case(long: bool, rng: &mut Rng, st: &mut Stats) -> Case {
    let cfg = GenCfg {
        depth: rng.range(1, 4),
        modes: rng.chance(1, 3),
        ..if long { long_cfg(rng) } else { GenCfg::default() }
    };
    let depth = cfg.depth;
    let (root, inputs) = if long {
        Gen::new(rng, cfg).long()
    } else {
        let mut g = Gen::new(rng, cfg);
        let root = g.node(depth);
        let inputs: Vec<_> = (0..2).map(|_| g.sentence(&root)).collect();
        (root, inputs)
    };
    count_kinds(&root, st);
    fn one<K: Kind>(
        root: &Node,
        input: &[char],
        rng: &mut Rng,
        st: &mut Stats,
        what: &str,
    ) -> Case
    where
        TSeq<K>: Input,
    {
        if expect(root, input, <TSeq<K> as Input>::width).is_none() {
            st.add("too_large", 1);
            return Ok(());
        }
        let whole: Rc<Doc<K>> = Doc::new(input, vec![], 0, 0);
        let (base, base_log) = parse_with(&build(root).root, false, TSeq::new(&whole))?;
        if base_log.len() > 100 {
            st.add("long_runs", 1);
        }
        for _ in 0..3 {
            let pend = *rng.pick(&[0u8, 40, 160, 250]);
            let doc = random_doc::<K>(rng, input, pend);
            let (seen, log) = parse_with(&build(root).root, rng.chance(1, 3), TSeq::new(&doc))
                .map_err(|v| Viol(format!("{what}: {}: {}", context(root, input), v.0)))?;
            ensure!(
                seen == base,
                "{what}: {}: {base:?} on one ready piece but {seen:?} when split or delayed",
                context(root, input)
            );
            ensure!(
                log == base_log,
                "{what}: {}: the invocations depend on how the input is split or delayed",
                context(root, input)
            );
            doc.check_misuse()?;
            st.add("suspensions", doc.suspensions.get());
            st.add("segments", doc.segments.get());
            if doc.segments.get() > 1 && st.distinct((root, input, doc.segments.get(), doc.suspensions.get())) && st.want_sample() {
                st.sample(|| {
                    format!(
                        "{} in {} segment reads with {} suspensions -> {seen:?}",
                        context(root, input),
                        doc.segments.get(),
                        doc.suspensions.get()
                    )
                });
            }
        }
        Ok(())
    }
    for input in &inputs {
        if rng.chance(2, 3) {
            one::<Text>(&root, input, rng, st, "text")?;
        } else {
            one::<Items>(&root, input, rng, st, "items")?;
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C30

/// only what the reference looked at has arrived, and more may follow
fn decided<K: Kind>(root: &Node, input: &[char], rng: &mut Rng, st: &mut Stats) -> Case
where
    TSeq<K>: Input,
{
    let mut r = Reference::new(root, input, <TSeq<K> as Input>::width);
    let res = r.eval(root, 0);
    if r.over {
        st.add("too_large", 1);
        return Ok(());
    }
    if r.end {
        // what has arrived does not decide it: waiting is right
        st.add("needs_the_end", 1);
        return Ok(());
    }
    let want = Seeing::of_ref(&r, res);
    outcome_class(&want, st);
    if r.log.len() > 100 {
        st.add("long_runs", 1);
    }
    let units: usize = input[..r.peak].iter().map(|c| K::width(*c)).sum();
    let all: usize = input.iter().map(|c| K::width(*c)).sum();
    st.add("unread_units", (all - units) as u64);
    for _ in 0..2 {
        let pend = *rng.pick(&[0u8, 0, 60, 160]);
        let doc = random_doc::<K>(rng, input, pend);
        doc.arrive(units);
        log_reset(u64::MAX);
        let built = build::<TSeq<K>>(root);
        let once = rng.chance(1, 3);
        let done = if once {
            run(built.root.clone().parse_once(TSeq::new(&doc)))
        } else {
            run(built.root.parse(TSeq::new(&doc)))
        };
        let log = log_take();
        let Run::Done(got) = done else {
            return Err(Viol(format!(
                "{}: still waiting after the first {units} of {all} units arrived, although they decide it ({want:?}); {} invocations so far, {} operations wait for more",
                context(root, input),
                log.len(),
                doc.waiting.get()
            )));
        };
        let got = Seeing::of(&got);
        ensure!(
            got == want,
            "{}: with the first {units} of {all} units arrived the outcome should be {want:?} but is {got:?}",
            context(root, input)
        );
        st.add("suspensions", doc.suspensions.get());
        st.add("segments", doc.segments.get());
    }
    if st.distinct((root, input)) && st.want_sample() && units < all {
        st.sample(|| format!("{} decided by {units} of {all} units -> {want:?}", context(root, input)));
    }
    Ok(())
}

/// literals around integer widths, then something else, differing at any place
fn need_literal(rng: &mut Rng, st: &mut Stats) -> Case {
    let n = *rng.pick(&[0usize, 1, 2, 3, 7, 8, 9, 100, 255, 256, 257, 4000, 65_535, 65_536, 65_537, 70_000]);
    let alphabet = ['a', 'b', 'é', 'あ', '😀'];
    let few = 1 + rng.below(alphabet.len());
    let pattern: Vec<char> = (0..n).map(|_| alphabet[rng.below(few)]).collect();
    let mut input = pattern.clone();
    if n > 0 && rng.chance(1, 2) {
        let any = rng.below(n);
        let at = *rng.pick(&[0, n - 1, n / 2, any]);
        input[at] = 'z';
    }
    let more = rng.below(4);
    input.extend((0..more).map(|_| alphabet[rng.below(few)]));
    st.max("max_literal", n as u64);
    let mk = |id, k| Node { id, mode: Mode::Inherit, k };
    let lit = mk(1, K::Lit(pattern));
    let root = match rng.below(3) {
        0 => lit,
        1 => mk(2, K::Or(Box::new(lit), Box::new(mk(3, K::Any)))),
        _ => mk(2, K::Opt(Box::new(lit))),
    };
    match rng.below(2) {
        0 => decided::<Text>(&root, &input, rng, st),
        _ => decided::<Items>(&root, &input, rng, st),
    }
}

fn need_case(long: bool, rng: &mut Rng, st: &mut Stats) -> Case {
    let mut cfg = if long { long_cfg(rng) } else { GenCfg::default() };
    cfg.depth = rng.range(1, 4);
    cfg.modes = rng.chance(1, 2);
    if rng.chance(1, 2) {
        cfg.alphabet = vec!['a', 'b'];
    }
    let depth = cfg.depth;
    let (root, inputs) = if long {
        let (root, mut inputs) = Gen::new(rng, cfg).long();
        // something that ends repetitions
        for i in &mut inputs {
            i.extend(['#', '#', '#']);
        }
        (root, inputs)
    } else {
        let mut g = Gen::new(rng, cfg);
        let root = if g.rng.chance(1, 4) {
            g.iter(depth - 1)
        } else {
            g.node(depth)
        };
        let inputs: Vec<_> = (0..3).map(|_| g.sentence(&root)).collect();
        (root, inputs)
    };
    count_kinds(&root, st);
    for input in &inputs {
        if rng.chance(2, 3) {
            decided::<Text>(&root, input, rng, st)?;
        } else {
            decided::<Items>(&root, input, rng, st)?;
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C06

/// characters that share leading bytes
const CONFUSABLE: [char; 9] = ['a', 'b', 'é', 'è', 'あ', 'い', '漢', '😀', '😁'];

fn check_matchers<S: RewindSequence + Input>(
    mk: impl Fn() -> S,
    pattern: &[char],
    input: &[char],
    desc: &str,
) -> Result<u64, Viol>
where
    S: 'static,
{
    let total = |c: &[char]| c.iter().map(|c| S::width(*c) as u64).sum::<u64>();
    let mut n = 0;
    let mut check = |name: &str, d: &Dyn<S>, want: Option<(V, usize)>| -> Case {
        for once in [false, true] {
            let s = mk();
            let anchor = s.anchor();
            let r = if once {
                run(d.clone().parse_once(s)).done()?
            } else {
                run(d.parse(s)).done()?
            };
            match (r, &want) {
                (Ok((v, r)), Some((w, k))) => {
                    ensure!(
                        v.v == *w && r.left() == total(&input[*k..]),
                        "{desc}: {name} on {}: gave {:?} and left {} units",
                        show_input(input),
                        v.v,
                        r.left()
                    );
                }
                (Err((e, l)), None) => {
                    ensure!(
                        !e.should_terminate(),
                        "{desc}: {name} on {}: terminating error",
                        show_input(input)
                    );
                    let back = run(l.rewind(anchor)).done()?;
                    ensure!(
                        back.left() == total(input),
                        "{desc}: {name} on {}: the input is not restored by rewinding",
                        show_input(input)
                    );
                }
                (Ok((v, _)), None) => {
                    return Err(Viol(format!(
                        "{desc}: {name} accepted {} with {:?}",
                        show_input(input),
                        v.v
                    )))
                }
                (Err(_), Some(_)) => {
                    return Err(Viol(format!(
                        "{desc}: {name} rejected {}",
                        show_input(input)
                    )))
                }
            }
            n += 1;
        }
        Ok(())
    };
    let want = input
        .starts_with(pattern)
        .then_some((V::Unit, pattern.len()));
    for k in 0..3 {
        check(
            &format!("literal {}", show_input(pattern)),
            &S::lit(pattern, k),
            want.clone(),
        )?;
    }
    if let Some(c) = pattern.first() {
        check(
            &format!("element {c:?}"),
            &S::the(*c),
            (input.first() == Some(c)).then_some((V::Unit, 1)),
        )?;
    }
    check("any", &S::any(), input.first().map(|c| (V::Ch(*c), 1)))?;
    Ok(n)
}

fn nth_word(alphabet: &[char], mut i: usize) -> Vec<char> {
    // words in order of length
    let n = alphabet.len();
    let mut len = 0;
    let mut count = 1;
    while i >= count {
        i -= count;
        count *= n;
        len += 1;
    }
    let mut w = Vec::new();
    for _ in 0..len {
        w.push(alphabet[i % n]);
        i /= n;
    }
    w
}

/// every segmentation of the input: cut set times optional empty segments
fn segmentations<K: Kind>(input: &[char]) -> Vec<Vec<usize>> {
    let n = input.len();
    let mut offs = vec![0];
    for c in input {
        offs.push(offs.last().unwrap() + K::width(*c));
    }
    let mut out = Vec::new();
    let inner = n.saturating_sub(1).min(4);
    for mask in 0..(1usize << inner) {
        for empties in 0..3 {
            let mut cuts = Vec::new();
            if empties == 1 {
                cuts.push(0);
            }
            for i in 0..inner {
                if mask >> i & 1 == 1 {
                    cuts.push(offs[i + 1]);
                    if empties == 2 {
                        cuts.push(offs[i + 1]);
                    }
                }
            }
            if empties > 0 {
                cuts.push(offs[n]);
                cuts.push(offs[n]);
            }
            out.push(cuts);
        }
    }
    out
}

fn matcher_pair(pattern: &[char], input: &[char], st: &mut Stats, pend: u8) -> Case {
    let mut n = with_str(input, |s| check_matchers(|| s, pattern, input, "text"))?;
    n += with_items(input, |s| check_matchers(|| s, pattern, input, "items"))?;
    for cuts in segmentations::<Text>(input) {
        let doc: Rc<Doc<Text>> = Doc::new(input, cuts.clone(), pend, 7);
        n += check_matchers(
            || TSeq::new(&doc),
            pattern,
            input,
            &format!("text cut at {cuts:?}"),
        )?;
        doc.check_misuse()?;
        st.add("segments", doc.segments.get());
    }
    for cuts in segmentations::<Items>(input) {
        let doc: Rc<Doc<Items>> = Doc::new(input, cuts.clone(), pend, 7);
        n += check_matchers(
            || TSeq::new(&doc),
            pattern,
            input,
            &format!("items cut at {cuts:?}"),
        )?;
        doc.check_misuse()?;
        st.add("segments", doc.segments.get());
    }
    st.add("matcher_calls", n);
    if st.distinct((pattern, input)) && !pattern.is_empty() && input.len() > 1 && st.want_sample() {
        st.sample(|| {
            format!(
                "literal {} on {} under every cut",
                show_input(pattern),
                show_input(input)
            )
        });
    }
    Ok(())
}

/// every character: matched, and told apart from characters that resemble it
fn matcher_sweep(block: u32, rng: &mut Rng, st: &mut Stats) -> Case {
    let mut calls = 0;
    for u in block * 1024..(block + 1) * 1024 {
        let Some(c) = char::from_u32(u) else { continue };
        let around = |rng: &mut Rng| match rng.below(6) {
            0 => '\u{feff}',
            1 => '\u{301}',
            2 => '\n',
            3 => c,
            4 => '\u{200d}',
            _ => 'a',
        };
        let mut others: Vec<char> = c.to_lowercase().chain(c.to_uppercase()).collect();
        others.push(around(rng));
        let step = 1u32 << rng.below(21);
        others.extend(char::from_u32(u ^ step));
        others.extend(char::from_u32(u.wrapping_add(step)));
        others.extend(char::from_u32(u & (step - 1)));
        let input = [c, around(rng)];
        calls += with_str(&input, |s| check_matchers(|| s, &[c], &input, "text"))?;
        let at = rng.below(others.len());
        for (i, o) in others.iter().enumerate() {
            if i == at || i < 2 && *o != c {
                calls += with_str(&input, |s| check_matchers(|| s, &[*o], &input, "text"))?;
            }
        }
        if u % 16 == 0 {
            let i = [c, around(rng), around(rng)];
            matcher_pair(&i[..rng.range(1, 2)], &i, st, 0)?;
        }
    }
    st.add("swept_blocks", 1);
    st.add("matcher_calls", calls);
    Ok(())
}

fn matcher_random(rng: &mut Rng, st: &mut Stats) -> Case {
    let any = |rng: &mut Rng| -> char {
        match rng.below(6) {
            0..=3 => *rng.pick(&CONFUSABLE),
            4 => char::from_u32(rng.below(0x800) as u32).unwrap(),
            _ => loop {
                if let Some(c) = char::from_u32(rng.below(0x110000) as u32) {
                    break c;
                }
            },
        }
    };
    let n = rng.below(7);
    let pattern: Vec<char> = (0..n).map(|_| any(rng)).collect();
    let mut input = pattern.clone();
    match rng.below(5) {
        0 => input.truncate(rng.below(n + 1)),
        1 if n > 0 => {
            let at = rng.below(n);
            input[at] = any(rng);
        }
        _ => {
            for _ in 0..rng.below(4) {
                let c = any(rng);
                input.push(c);
            }
        }
    }
    matcher_pair(&pattern, &input, st, 60)
}

/// long patterns, many pieces, long runs of empty pieces
fn matcher_long(rng: &mut Rng, st: &mut Stats) -> Case {
    let n = match rng.below(40) {
        0 => 65_500 + rng.below(200),
        1..=9 => (1usize << rng.range(4, 12)) + rng.below(4) - 2,
        _ => rng.range(7, 700),
    };
    let alphabet = *rng.pick(&[&['a', 'b'][..], &CONFUSABLE, &['漢', '😀', '😁']]);
    let pattern: Vec<char> = (0..n).map(|_| *rng.pick(alphabet)).collect();
    let mut input = pattern.clone();
    match rng.below(6) {
        0 => input.truncate(rng.below(n + 1)),
        1 => {
            let at = rng.below(n);
            input[at] = *rng.pick(&CONFUSABLE);
        }
        2 => {
            input.pop();
        }
        3 => {
            input[n - 1] = *rng.pick(&CONFUSABLE);
        }
        _ => {
            for _ in 0..rng.below(40) {
                let c = *rng.pick(alphabet);
                input.push(c);
            }
        }
    }
    let mut k = with_str(&input, |s| check_matchers(|| s, &pattern, &input, "text"))?;
    k += with_items(&input, |s| check_matchers(|| s, &pattern, &input, "items"))?;
    fn pieces<K: Kind>(pattern: &[char], input: &[char], rng: &mut Rng, st: &mut Stats) -> Result<u64, Viol>
    where
        TSeq<K>: Input,
    {
        let pend = *rng.pick(&[0, 0, 60]);
        let doc = if rng.chance(1, 3) {
            // empty pieces in a row at one place
            let m = rng.below(input.len() + 1);
            let at: usize = input[..m].iter().map(|c| K::width(*c)).sum();
            Doc::<K>::new(input, vec![at; rng.range(1, 300)], pend, rng.next())
        } else {
            random_doc::<K>(rng, input, pend)
        };
        let k = check_matchers(|| TSeq::new(&doc), pattern, input, "pieces")?;
        doc.check_misuse()?;
        st.add("segments", doc.segments.get());
        Ok(k)
    }
    k += pieces::<Text>(&pattern, &input, rng, st)?;
    k += pieces::<Items>(&pattern, &input, rng, st)?;
    st.add("matcher_calls", k);
    st.add("long_patterns", 1);
    st.distinct((&pattern, &input));
    Ok(())
}

/// literals of millions of units and of more than 2^32
fn matcher_huge(rng: &mut Rng, st: &mut Stats) -> Case {
    fn one<S: RewindSequence>(
        what: &str,
        p: &impl Parser<S>,
        s: S,
        want: Option<usize>,
        left: impl Fn(&S) -> usize,
        st: &mut Stats,
    ) -> Case {
        let total = left(&s);
        let anchor = s.anchor();
        st.add("huge_literals", 1);
        match run(p.parse(s)).done()? {
            Ok((_, r)) => match want {
                Some(n) => ensure!(left(&r) == n, "{what}: {} units left instead of {n}", left(&r)),
                None => return Err(Viol(format!("{what}: accepted"))),
            },
            Err((e, r)) => {
                ensure!(want.is_none() && !e.should_terminate(), "{what}: rejected");
                let back = run(r.rewind(anchor)).done()?;
                ensure!(left(&back) == total, "{what}: not restored by rewinding");
            }
        }
        Ok(())
    }
    if rng.chance(1, 8) {
        let Some(e) = endless() else { return Ok(()) };
        let n = *rng.pick(&[1usize << 32, 1 << 31]) + rng.below(9) - 4;
        let m = n + rng.below(5) - 2;
        let want = (m >= n).then(|| m - n);
        let what = format!("literal of {n} units on {m} equal ones");
        one(&what, &atom(&e[..n]), &e[..m], want, |s: &&str| s.len(), st)?;
        let e = e.as_bytes();
        return one(&what, &atom(&e[..n]), &e[..m], want, |s: &&[u8]| s.len(), st);
    }
    let n = (1usize << rng.range(17, 25)) + rng.below(9) - 4;
    let mut text = vec![b'a'; n];
    for _ in 0..rng.below(3) {
        let at = rng.below(n);
        text[at] = b'b';
    }
    let pattern = String::from_utf8(text.clone()).unwrap();
    let mut same = true;
    match rng.below(5) {
        0 => {
            text.pop();
            same = false;
        }
        1 | 2 => {
            let at = match rng.below(3) {
                0 => n - 1 - rng.below(4),
                1 => (1usize << rng.range(8, 24)).min(n - 1),
                _ => rng.below(n),
            };
            text[at] = b'c';
            same = false;
        }
        _ => text.extend_from_slice(&b"aab"[..rng.below(4)]),
    }
    let want = same.then(|| text.len() - n);
    let what = format!("literal of {n} units, {}", if same { "present" } else { "absent" });
    match rng.below(5) {
        0 => one(&what, &atom(pattern), std::str::from_utf8(&text).unwrap(), want, |s: &&str| s.len(), st),
        1 => one(&what, &atom(pattern.as_str()), std::str::from_utf8(&text).unwrap(), want, |s: &&str| s.len(), st),
        2 => one(&what, &atom(pattern.into_bytes()), text.as_slice(), want, |s: &&[u8]| s.len(), st),
        3 => one(&what, &atom(pattern.as_bytes()), text.as_slice(), want, |s: &&[u8]| s.len(), st),
        _ => {
            let chars: Vec<char> = text.iter().map(|b| *b as char).collect();
            let mut cuts: Vec<usize> = (0..rng.below(6)).map(|_| rng.below(chars.len() + 1)).collect();
            cuts.sort();
            let doc = Doc::<Text>::new(&chars, cuts, *[0, 60].get(rng.below(2)).unwrap(), rng.next());
            one(&what, &atom(pattern), TSeq::new(&doc), want, TSeq::remaining, st)?;
            doc.check_misuse()
        }
    }?;
    st.distinct(("huge", n, same));
    Ok(())
}

/// other element types, typed parsers
fn matcher_types(rng: &mut Rng, st: &mut Stats) -> Case {
    /// the rest is the input from `n` on, wherever equality of the items stands
    fn is_rest<T>(rest: &[T], input: &[T], n: usize) -> bool {
        n <= input.len()
            && rest.len() == input.len() - n
            && (std::mem::size_of::<T>() == 0 || rest.as_ptr_range() == input[n..].as_ptr_range())
    }
    fn one<T: Clone + PartialEq + std::fmt::Debug + 'static>(
        rng: &mut Rng,
        vals: &[T],
        st: &mut Stats,
    ) -> Case {
        let input: Vec<T> = (0..rng.below(6)).map(|_| rng.pick(vals).clone()).collect();
        let pat: Vec<T> = if rng.chance(1, 2) {
            input[..rng.below(input.len() + 1)].to_vec()
        } else {
            (0..rng.below(4)).map(|_| rng.pick(vals).clone()).collect()
        };
        let s = input.as_slice();
        // the pattern may be the very items of the input
        let own = rng.below(input.len() + 1);
        let results = [
            (&pat[..], now(Parser::parse(&atom(pat.clone()), s))),
            (&s[..own], now(Parser::parse(&atom(&s[..own]), s))),
            (&s[own..], now(atom(&s[own..]).parse_once(s))),
        ];
        for (pat, r) in results {
            let is = pat.len() <= s.len() && pat.iter().zip(s).all(|(p, x)| p == x);
            match r {
                Ok((_, rest)) => ensure!(
                    is && is_rest(rest, s, pat.len()),
                    "literal {pat:?} on {input:?} left {rest:?}"
                ),
                Err((e, _)) => ensure!(
                    !is && !e.should_terminate(),
                    "literal {pat:?} rejected {input:?}"
                ),
            }
        }
        let x = rng.pick(vals).clone();
        match now(Parser::parse(&the_item(x.clone()), s)) {
            Ok((_, rest)) => ensure!(
                input.first() == Some(&x) && is_rest(rest, s, 1),
                "element {x:?} on {input:?} left {rest:?}"
            ),
            Err((e, _)) => ensure!(
                input.first() != Some(&x) && !e.should_terminate(),
                "element {x:?} rejected {input:?}"
            ),
        }
        match now(Parser::parse(&any_item::<T, &[T]>(), s)) {
            Ok((v, rest)) => ensure!(
                input.first().map(|x| format!("{x:?}")) == Some(format!("{v:?}")) && is_rest(rest, s, 1),
                "any on {input:?} gave {v:?} and left {rest:?}"
            ),
            Err((e, _)) => ensure!(input.is_empty() && !e.should_terminate(), "any rejected {input:?}"),
        }
        st.add("typed_cases", 1);
        Ok(())
    }
    /// equal without being the same
    #[derive(Clone, Debug)]
    struct Loose(u8, u8);
    impl PartialEq for Loose {
        fn eq(&self, o: &Loose) -> bool {
            self.0 == o.0
        }
    }
    /// never equal, not even to itself
    #[derive(Clone, Debug)]
    struct Apart;
    impl PartialEq for Apart {
        fn eq(&self, _: &Apart) -> bool {
            false
        }
    }
    one(rng, &[f64::NAN, 0.0, -0.0, 1.0], st)?;
    one(rng, &[Loose(0, 0), Loose(0, 1), Loose(1, 0), Loose(1, 1)], st)?;
    one(rng, &[Apart], st)?;
    one(rng, &[[0u64; 9], [1; 9], [0, 0, 0, 0, 0, 0, 0, 0, 1]], st)?;
    one(rng, &[0u8, 1, 0x80, 0xff], st)?;
    one(rng, &[(), ()], st)?;
    one(rng, &["x".to_string(), "y".to_string(), String::new()], st)?;
    one(rng, &[vec![1u16], vec![], vec![1, 2]], st)?;
    one(rng, &[Some(1u64), None], st)?;
    Ok(())
}

// ---------------------------------------------------------------- C07, C08

struct ChainCfg {
    faults: bool,
    long: bool,
}

/// expression over x, parentheses and operator characters
fn chain_grammar(rng: &mut Rng, faults: &ChainCfg) -> (Node, Vec<char>) {
    let ops = ['+', '-', '*', '/', '^', '=', '→'];
    let mut id = 0u32;
    let mut mk = |k: K| {
        id += 1;
        Node {
            id,
            mode: Mode::Inherit,
            k,
        }
    };
    let bx = Box::new;
    let mut op = mk(K::The(ops[0]));
    for o in &ops[1..] {
        let l = if rng.chance(1, 3) {
            mk(K::Lit(vec![*o]))
        } else {
            mk(K::The(*o))
        };
        op = mk(K::Or(bx(l), bx(op)));
    }
    // operators and operands of several elements, which may fail after consuming some
    let wide = rng.chance(1, 2);
    let (mut spaced, mut spaced_term) = (false, false);
    if wide {
        let (p, q) = (mk(K::The('=')), mk(K::The('+')));
        let two = mk(K::Join(bx(p), bx(q)));
        op = mk(K::Or(bx(two), bx(op)));
        if rng.chance(1, 2) {
            let l = mk(K::Lit(vec!['^', '*', '^']));
            op = mk(K::Or(bx(l), bx(op)));
        }
        spaced = rng.chance(2, 3);
        spaced_term = rng.chance(1, 2);
        if spaced {
            let sp = mk(K::The(' '));
            let sp = match rng.below(3) {
                0 => sp,
                1 => mk(K::Opt(bx(sp))),
                _ => mk(K::Rep(bx(sp))),
            };
            op = mk(K::Join(bx(sp), bx(op)));
        }
        if rng.chance(1, 4) {
            op = mk(K::Map(bx(op)));
        }
    }
    let x = mk(K::The('x'));
    let y = mk(K::The('y'));
    let (lp, rp) = (mk(K::The('(')), mk(K::The(')')));
    let call = mk(K::Call);
    let inner = mk(K::Join(bx(call), bx(rp)));
    let paren = mk(K::Join(bx(lp), bx(inner)));
    let xy = mk(K::Or(bx(x), bx(y)));
    let mut term = mk(K::Or(bx(xy), bx(paren)));
    if spaced_term {
        let sp = mk(K::The(' '));
        let sp = mk(K::Rep(bx(sp)));
        term = mk(K::Join(bx(sp), bx(term)));
    }
    if faults.faults {
        // '!' aborts from the operand parser, '?' from the operator parser; 'm' and ',' are
        // consumed before missing
        for (c, out, is_term) in [
            ('!', Out::Fatal, true),
            ('m', Out::Miss, true),
            ('?', Out::Fatal, false),
            (',', Out::Miss, false),
        ] {
            let c = mk(K::The(c));
            let e = mk(K::Eat(0, out));
            let f = mk(K::Join(bx(c), bx(e)));
            if is_term {
                term = mk(K::Or(bx(f), bx(term)));
            } else {
                op = mk(K::Or(bx(f), bx(op)));
            }
        }
    }
    let salt = rng.next();
    let root = mk(K::Bin(bx(term), bx(op), salt));
    // a sentence
    fn chain(rng: &mut Rng, ops: &[char], depth: usize, max: usize, out: &mut Vec<char>) {
        let n = rng.below(max + 1);
        for i in 0..=n {
            if i > 0 {
                out.push(*rng.pick(ops));
            }
            if depth > 0 && rng.chance(1, 8) {
                out.push('(');
                chain(rng, ops, depth - 1, max.min(6), out);
                out.push(')');
            } else {
                out.push(if rng.chance(1, 2) { 'x' } else { 'y' });
            }
        }
    }
    let mut s: Vec<char> = Vec::new();
    let max = if faults.long {
        rng.range(60, 1500)
    } else {
        *rng.pick(&[2, 4, 4, 8, 8, 16, 60])
    };
    // few distinct operators give more equal-precedence neighbours
    let k = *rng.pick(&[1, 2, 3, ops.len()]);
    let some: Vec<char> = (0..k).map(|_| *rng.pick(&ops)).collect();
    chain(rng, &some, 2, max, &mut s);
    if wide {
        let mut out = Vec::new();
        for c in s {
            let is_op = ops.contains(&c);
            if spaced && is_op && rng.chance(9, 10) {
                out.push(' ');
            }
            out.push(c);
            if c == '=' && rng.chance(1, 2) {
                out.push('+');
            } else if c == '^' && rng.chance(1, 2) {
                out.extend(['*', '^']);
            }
            if spaced_term && is_op && rng.chance(1, 2) {
                out.push(' ');
            }
        }
        s = out;
        // the beginning of an operator at the end
        if rng.chance(1, 2) {
            s.extend(*rng.pick(&[
                &[' '][..],
                &[' ', ' '],
                &['='],
                &['^'],
                &['^', '*'],
                &[' ', 'x'],
                &[' ', '='],
                &[' ', '=', 'é'],
                &['^', '*', 'x'],
                &[' ', '+', ' '],
            ]));
        }
    }
    if faults.faults {
        match rng.below(9) {
            0 => {}
            1 => s.push(*rng.pick(&some)),
            2 => {
                s.push(*rng.pick(&some));
                s.push(*rng.pick(&['!', 'm', '?', ',', ')', '+', 'é']));
            }
            3 => s.push(*rng.pick(&['!', 'm', '?', ',', ')', 'x', 'é'])),
            4 => s.insert(0, *rng.pick(&['!', 'm', '?', ',', '+'])),
            5 => {
                s.push(*rng.pick(&some));
                s.push(*rng.pick(&some));
                s.push('x');
            }
            6 => {
                let at = rng.below(s.len() + 1);
                s.insert(at, *rng.pick(&['!', '?', 'm', ',']));
            }
            7 => {
                s.truncate(rng.below(s.len() + 1));
            }
            _ => {
                let at = rng.below(s.len());
                s.remove(at);
            }
        }
    }
    (root, s)
}

/// the expression without the reason
fn expr_only(s: &Seeing) -> Option<V> {
    fn strip(v: &V) -> V {
        match v {
            V::Chain(x, _) => V::Chain(Box::new(strip(x)), Box::new(EV::Prim)),
            V::Op(l, o, r) => V::Op(Box::new(strip(l)), Box::new(strip(o)), Box::new(strip(r))),
            V::Term(x) => V::Term(Box::new(strip(x))),
            V::First(x) => V::First(Box::new(strip(x))),
            V::Last(x) => V::Last(Box::new(strip(x))),
            V::Pair(x, y) => V::Pair(Box::new(strip(x)), Box::new(strip(y))),
            v => v.clone(),
        }
    }
    match s {
        Seeing::Ok(v, _) => Some(strip(v)),
        _ => None,
    }
}

fn chain_case(c08: bool, long: bool, rng: &mut Rng, st: &mut Stats) -> Case {
    let faults = c08 || rng.chance(1, 6);
    let (root, input) = chain_grammar(rng, &ChainCfg { faults, long });
    ledger::reset();
    let Some(mut want) = expect(&root, &input, <&str as Input>::width) else {
        st.add("too_large", 1);
        return Ok(());
    };
    outcome_class(&want.seen, st);
    let n = input.iter().filter(|c| !"xy() ".contains(**c)).count();
    st.max("max_operators", n as u64);
    st.add("operators", n as u64);
    if n > 200 {
        st.add("long_chains", 1);
    }
    let once = rng.chance(1, 2);
    st.add(if once { "by_value" } else { "by_reference" }, 1);
    let seen = match rng.below(3) {
        0 => with_str(&input, |s| parse_with(&build(&root).root, once, s))?.0,
        1 => {
            let pend = *rng.pick(&[0u8, 0, 60]);
            let doc = random_doc::<Text>(rng, &input, pend);
            let s = parse_with(&build(&root).root, once, TSeq::new(&doc))?.0;
            doc.check_misuse()?;
            s
        }
        _ => {
            let Some(w) = expect(&root, &input, <TSeq<Items> as Input>::width) else {
                return Ok(());
            };
            want = w;
            let pend = *rng.pick(&[0u8, 0, 60]);
            let doc = random_doc::<Items>(rng, &input, pend);
            let s = parse_with(&build(&root).root, once, TSeq::new(&doc))?.0;
            doc.check_misuse()?;
            s
        }
    };
    if c08 {
        differs("chain", &root, &input, &want, &seen)?;
    } else {
        let (a, b) = (expr_only(&want.seen), expr_only(&seen));
        if let (Some(a), Some(b)) = (&a, &b) {
            ensure!(
                a == b,
                "on {}: expected the grouping {a:?} but got {b:?}",
                show_input(&input)
            );
        }
        ensure!(
            a.is_some() == b.is_some(),
            "on {}: expected {:?} but got {seen:?}",
            show_input(&input),
            want.seen
        );
    }
    let interesting = if c08 { faults } else { n >= 2 };
    if interesting && st.distinct((&root, &input)) && input.len() < 20 && st.want_sample() {
        st.sample(|| format!("{} -> {:?}", show_input(&input), seen));
    }
    Ok(())
}

// ---------------------------------------------------------------- C11

fn release_long(rng: &mut Rng, st: &mut Stats) -> Case {
    let cfg = long_cfg(rng);
    let (root, inputs) = Gen::new(rng, cfg).long();
    for input in inputs {
        st.add("long_runs", 1);
        endings::<Text>(&root, input, true, false, rng, st)?;
    }
    Ok(())
}

fn release_case(mini: bool, rng: &mut Rng, st: &mut Stats) -> Case {
    let cfg = GenCfg {
        depth: rng.range(1, if mini { 3 } else { 4 }),
        modes: rng.chance(1, 2),
        bin: 6,
        iter: 5,
        ..GenCfg::default()
    };
    let depth = cfg.depth;
    let chain = rng.chance(1, 4);
    let (root, input) = if chain {
        let (r, mut s) = chain_grammar(rng, &ChainCfg { faults: true, long: false });
        s.truncate(24);
        (r, s)
    } else {
        let mut g = Gen::new(rng, cfg);
        let root = g.node(depth);
        let input = g.sentence(&root);
        (root, input)
    };
    match rng.below(8) {
        0 => endings::<Items>(&root, input, false, mini, rng, st),
        1..=3 => {
            st.add("owned_items", 1);
            endings::<Owned>(&root, input, false, mini, rng, st)
        }
        _ => endings::<Text>(&root, input, false, mini, rng, st),
    }
}

/// every ending of one parse: complete, dropped while suspended, unwound from a callback
fn endings<Kd: Kind>(root: &Node, input: Vec<char>, long: bool, mini: bool, rng: &mut Rng, st: &mut Stats) -> Case
where
    TSeq<Kd>: Input,
{
    let Some(want) = expect(root, &input, <TSeq<Kd> as Input>::width) else {
        st.add("too_large", 1);
        return Ok(());
    };
    if want.log.len() > if long { 20_000 } else if mini { 30 } else { 150 } {
        return Ok(());
    }
    count_kinds(root, st);
    let seed_doc = random_doc::<Kd>(rng, &input, 0);
    drop(seed_doc);
    let doc_seed = rng.next();
    let mk_doc = |pend: u8| {
        let mut r = Rng::new(doc_seed);
        random_doc::<Kd>(&mut r, &input, pend)
    };
    let once = rng.chance(1, 2);
    let parse = |max: usize, pend: u8| -> (Run<Res<TSeq<Kd>>>, usize) {
        let built = build::<TSeq<Kd>>(root);
        let doc = mk_doc(pend);
        let mut p = 0;
        let r = if once {
            exec::run_for(built.root.clone().parse_once(TSeq::new(&doc)), max, &mut p)
        } else {
            exec::run_for(built.root.parse(TSeq::new(&doc)), max, &mut p)
        };
        (r, p)
    };
    let balanced = |how: &str| {
        ledger::balanced().map_err(|m| Viol(format!("{how}: {}: {m}", context(root, &input))))
    };
    let points = if mini || long { 4 } else { 40 };
    // complete
    ledger::reset();
    log_reset(u64::MAX);
    let (r, polls) = parse(usize::MAX, 90);
    let r = r.done()?;
    // what the result holds is alive, and nothing else
    let held = match &r {
        Ok((v, _)) => v.t.len(),
        Err((e, _)) => e.t.len(),
    } as i64
        + Kd::tracked(input.len());
    ensure!(
        ledger::live() == held,
        "{}: the result holds {held} values but {} are alive",
        context(root, &input),
        ledger::live()
    );
    drop(r);
    balanced("after completion")?;
    let events = events();
    st.add("values_tracked", ledger::created());
    // dropped at every suspension point
    let step = 1 + polls / points;
    let mut k = if long { 1 + rng.below(step) } else { 1 };
    while k <= polls {
        ledger::reset();
        log_reset(u64::MAX);
        let (r, _) = parse(k, 90);
        ensure!(
            matches!(r, Run::Dropped),
            "{}: not suspended again at poll {k}",
            context(root, &input)
        );
        drop(r);
        balanced("dropped while suspended")?;
        st.add("drops_at_suspension", 1);
        k += step;
    }
    // a panic at every invocation of a leaf or callback
    let step = 1 + events / points as u64;
    let mut k = if long { rng.below(step as usize) as u64 } else { 0 };
    while k < events {
        ledger::reset();
        log_reset(k);
        match guarded(|| parse(usize::MAX, 0)) {
            Err(Caught::Injected) => st.add("panics_in_callbacks", 1),
            Err(Caught::Code(m)) => return Err(Viol(m)),
            Err(Caught::Harness(m)) => panic!("{m}"),
            Ok(_) => {}
        }
        exec::clear_queue();
        balanced("unwound by a panicking callback")?;
        k += step;
    }
    log_reset(u64::MAX);
    if (polls > 0 || events > 1) && st.distinct((root, &input)) && st.want_sample() {
        st.sample(|| {
            format!(
                "{}: dropped at up to {polls} suspensions, panicked at up to {events} invocations",
                context(root, &input)
            )
        });
    }
    Ok(())
}

// ---------------------------------------------------------------- C29

struct DynErr(Box<dyn Fn() -> bool>);
impl ParseError for DynErr {
    fn should_terminate(&self) -> bool {
        (self.0)()
    }
}

fn err_tree(rng: &mut Rng, depth: usize, desc: &mut String) -> (DynErr, bool) {
    if depth == 0 || rng.chance(1, 6) {
        let n = rng.next();
        return match rng.below(6) {
            0 => {
                desc.push_str("Miss(())");
                (DynErr(Box::new(|| Miss(()).should_terminate())), false)
            }
            1 => {
                desc.push_str("Fatal(())");
                (DynErr(Box::new(|| Fatal(()).should_terminate())), true)
            }
            2 => {
                // a wrapper decides, whatever it wraps
                desc.push_str("Miss(Fatal)");
                let e = Miss(Fatal(n));
                (DynErr(Box::new(move || e.should_terminate())), false)
            }
            3 => {
                desc.push_str("Fatal(Miss)");
                let e = Fatal(Miss(format!("{n}")));
                (DynErr(Box::new(move || e.should_terminate())), true)
            }
            4 => {
                desc.push_str("Miss::from");
                let e: Miss<String> = String::from("x").into();
                (DynErr(Box::new(move || e.should_terminate())), false)
            }
            _ => {
                desc.push_str("Fatal::from");
                let e: Fatal<Vec<u8>> = vec![1u8].into();
                (DynErr(Box::new(move || e.should_terminate())), true)
            }
        };
    }
    let k = rng.below(9);
    let name = [
        "&", "&&", "Some", "None", "Either::First", "Either::Last", "EitherBoth::First",
        "EitherBoth::Last", "Both",
    ][k];
    desc.push_str(name);
    desc.push('(');
    let (x, tx) = err_tree(rng, depth - 1, desc);
    let r: (DynErr, bool) = match k {
        0 => (DynErr(Box::new(move || <&DynErr as ParseError>::should_terminate(&&x))), tx),
        1 => (
            DynErr(Box::new(move || {
                <&&DynErr as ParseError>::should_terminate(&&&x)
            })),
            tx,
        ),
        2 => {
            let o = Some(x);
            (DynErr(Box::new(move || o.should_terminate())), tx)
        }
        3 => (
            DynErr(Box::new(|| None::<DynErr>.should_terminate())),
            false,
        ),
        4 => {
            let e: Either<DynErr, Fatal<()>> = Either::First(x);
            (DynErr(Box::new(move || e.should_terminate())), tx)
        }
        5 => {
            let e: Either<Fatal<()>, DynErr> = Either::Last(x);
            (DynErr(Box::new(move || e.should_terminate())), tx)
        }
        6 => {
            let e: EitherBoth<DynErr, Miss<()>> = EitherBoth::First(x);
            (DynErr(Box::new(move || e.should_terminate())), tx)
        }
        7 => {
            let e: EitherBoth<Miss<()>, DynErr> = EitherBoth::Last(x);
            (DynErr(Box::new(move || e.should_terminate())), tx)
        }
        _ => {
            desc.push(',');
            let (y, ty) = err_tree(rng, depth - 1, desc);
            let e = EitherBoth::Both(x, y);
            (DynErr(Box::new(move || e.should_terminate())), tx || ty)
        }
    };
    desc.push(')');
    r
}

fn panics<R>(f: impl FnOnce() -> R) -> bool {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).is_err()
}

#[derive(Debug, Clone, PartialEq)]
struct PA(u64);
#[derive(Debug, Clone, PartialEq)]
struct PB(String);
#[derive(Debug, PartialEq)]
enum PU {
    A(PA),
    B(PB),
}
impl From<PA> for PU {
    fn from(v: PA) -> PU {
        PU::A(v)
    }
}
impl From<PB> for PU {
    fn from(v: PB) -> PU {
        PU::B(v)
    }
}

/// error types of every layout: without a size, with and without unused values
trait Shape: ParseError + Clone + PartialEq + std::fmt::Debug {
    fn some(rng: &mut Rng) -> (Self, bool);
}
#[derive(Clone, Debug, PartialEq)]
struct ShT;
#[derive(Clone, Debug, PartialEq)]
struct ShR;
#[derive(Clone, Debug, PartialEq)]
struct ShByte(u8);
#[derive(Clone, Debug, PartialEq)]
struct ShBig([u64; 9], bool);
#[derive(Clone, Debug, PartialEq)]
struct ShNz(std::num::NonZeroU8);
#[derive(Clone, Debug, PartialEq)]
struct ShBox(Box<bool>);
#[derive(Clone, Debug, PartialEq)]
enum ShSides {
    A,
    B(String),
}
#[derive(Clone, Debug, PartialEq)]
#[repr(align(64))]
struct ShWide(bool);
macro_rules! shape {
    ($($t:ty, $e:ident => $w:expr, $rng:ident => $mk:expr;)*) => {$(
        impl ParseError for $t {
            fn should_terminate(&self) -> bool {
                let $e = self;
                $w
            }
        }
        impl Shape for $t {
            fn some($rng: &mut Rng) -> (Self, bool) {
                let $e: $t = $mk;
                let w = { let $e = &$e; $w };
                ($e, w)
            }
        }
    )*};
}
shape! {
    ShT, _e => true, _rng => ShT;
    ShR, _e => false, _rng => ShR;
    ShByte, e => e.0 % 2 == 1, rng => ShByte(rng.below(256) as u8);
    ShBig, e => e.1, rng => ShBig([rng.next(); 9], rng.chance(1, 2));
    ShNz, e => e.0.get() > 100, rng => ShNz(std::num::NonZeroU8::new(rng.range(1, 255) as u8).unwrap());
    ShBox, e => *e.0, rng => ShBox(Box::new(rng.chance(1, 2)));
    ShSides, e => matches!(e, ShSides::A), rng => if rng.chance(1, 2) { ShSides::A } else { ShSides::B("b".repeat(rng.below(4))) };
    ShWide, e => e.0, rng => ShWide(rng.chance(1, 2));
}

fn wrapper_types(rng: &mut Rng, st: &mut Stats) -> Case {
    fn is<E: ParseError>(e: E, want: bool) -> Case {
        ensure!(
            e.should_terminate() == want && (&&e).should_terminate() == want,
            "a value of {} is classed terminating={} but should be {want}",
            std::any::type_name::<E>(),
            !want
        );
        Ok(())
    }
    fn pair<A: Shape, B: Shape>(rng: &mut Rng, st: &mut Stats) -> Case {
        let ((a, ta), (b, tb)) = (A::some(rng), B::some(rng));
        let (x, y) = (|| a.clone(), || b.clone());
        is(a.clone(), ta)?;
        is(Some(x()), ta)?;
        is(None::<A>, false)?;
        is(Some(Some(x())), ta)?;
        is(Some(None::<A>), false)?;
        is(Some(&a), ta)?;
        is(Miss(x()), false)?;
        is(Fatal(x()), true)?;
        is(Miss(Fatal(x())), false)?;
        is(Fatal(Miss(x())), true)?;
        is(Some(Fatal(())), true)?;
        is(Either::<A, Never>::First(x()), ta)?;
        is(Either::<Never, B>::Last(y()), tb)?;
        is(EitherBoth::<A, Never>::First(x()), ta)?;
        is(EitherBoth::<Never, B>::Last(y()), tb)?;
        is(Either::<A, B>::First(x()), ta)?;
        is(Either::<A, B>::Last(y()), tb)?;
        is(Some(Either::<A, B>::First(x())), ta)?;
        is(Some(Either::<A, B>::Last(y())), tb)?;
        is(Either::<Option<A>, Option<B>>::First(Some(x())), ta)?;
        is(Either::<Option<A>, Option<B>>::First(None), false)?;
        is(Either::<Option<A>, Option<B>>::Last(Some(y())), tb)?;
        is(Either::<Option<A>, Option<B>>::Last(None), false)?;
        is(EitherBoth::<A, B>::First(x()), ta)?;
        is(EitherBoth::<A, B>::Last(y()), tb)?;
        is(EitherBoth::<A, B>::Both(x(), y()), ta || tb)?;
        is(EitherBoth::<B, Option<A>>::Both(y(), Some(x())), ta || tb)?;
        is(EitherBoth::<B, Option<A>>::Both(y(), None), tb)?;
        is(EitherBoth::<Either<A, B>, &B>::Both(Either::Last(y()), &b), tb)?;
        is(EitherBoth::<Either<A, B>, &B>::First(Either::First(x())), ta)?;
        is(Either::<EitherBoth<A, B>, A>::First(EitherBoth::Both(x(), y())), ta || tb)?;
        is(Either::<EitherBoth<A, B>, A>::Last(x()), ta)?;
        let kept = Either::<A, B>::First(x()).unwrap_first() == a
            && Either::<A, B>::Last(y()).unwrap_last() == b
            && Either::<A, Never>::First(x()).always_first() == a
            && Either::<Never, B>::Last(y()).always_last() == b
            && EitherBoth::<A, Never>::First(x()).always_first() == a
            && EitherBoth::<Never, B>::Last(y()).always_last() == b
            && Either::<A, A>::First(x()).unify::<A>() == a
            && Either::<A, A>::Last(x()).unify::<A>() == a;
        ensure!(kept, "unwrapping {a:?} or {b:?} changed it");
        if rng.chance(1, 8) {
            let (f, l) = (Either::<A, B>::First(x()), Either::<A, B>::Last(y()));
            ensure!(panics(|| f.unwrap_last()), "unwrap_last of First({a:?}) did not panic");
            ensure!(panics(|| l.unwrap_first()), "unwrap_first of Last({b:?}) did not panic");
        }
        st.add("wrapped_types", 1);
        Ok(())
    }
    fn with<A: Shape>(rng: &mut Rng, st: &mut Stats) -> Case {
        match rng.below(8) {
            0 => pair::<A, ShT>(rng, st),
            1 => pair::<A, ShR>(rng, st),
            2 => pair::<A, ShByte>(rng, st),
            3 => pair::<A, ShBig>(rng, st),
            4 => pair::<A, ShNz>(rng, st),
            5 => pair::<A, ShBox>(rng, st),
            6 => pair::<A, ShSides>(rng, st),
            _ => pair::<A, ShWide>(rng, st),
        }
    }
    match rng.below(8) {
        0 => with::<ShT>(rng, st),
        1 => with::<ShR>(rng, st),
        2 => with::<ShByte>(rng, st),
        3 => with::<ShBig>(rng, st),
        4 => with::<ShNz>(rng, st),
        5 => with::<ShBox>(rng, st),
        6 => with::<ShSides>(rng, st),
        _ => with::<ShWide>(rng, st),
    }
}

fn wrapper_case(rng: &mut Rng, st: &mut Stats) -> Case {
    let mut d = String::new();
    let depth = rng.below(6);
    let (e, want) = err_tree(rng, depth, &mut d);
    ensure!(
        e.should_terminate() == want,
        "{d} is classed terminating={} but should be {want}",
        e.should_terminate()
    );
    st.add(if want { "terminating" } else { "recoverable" }, 1);
    // asking twice gives the same
    ensure!(e.should_terminate() == want, "{d} changes its class");

    let (a, bb) = (PA(rng.next()), PB(format!("p{}", rng.below(1000))));
    type E = Either<PA, PB>;
    let first = || E::First(a.clone());
    let last = || E::Last(bb.clone());
    ensure!(first().unwrap_first() == a, "unwrap_first changed the value");
    ensure!(last().unwrap_last() == bb, "unwrap_last changed the value");
    ensure!(panics(|| last().unwrap_first()), "unwrap_first of Last did not panic");
    ensure!(panics(|| first().unwrap_last()), "unwrap_last of First did not panic");
    ensure!(first().unify::<PU>() == PU::A(a.clone()), "unify of First");
    ensure!(last().unify::<PU>() == PU::B(bb.clone()), "unify of Last");
    ensure!(
        Either::<PA, Never>::First(a.clone()).always_first() == a,
        "always_first changed the value"
    );
    ensure!(
        Either::<Never, PB>::Last(bb.clone()).always_last() == bb,
        "always_last changed the value"
    );
    ensure!(
        EitherBoth::<PA, Never>::First(a.clone()).always_first() == a,
        "EitherBoth::always_first changed the value"
    );
    ensure!(
        EitherBoth::<Never, PB>::Last(bb.clone()).always_last() == bb,
        "EitherBoth::always_last changed the value"
    );
    // an empty array of impossible values is the only inhabited `ShouldNever`
    ensure!(
        panics(|| Either::<PA, [Never; 0]>::Last([]).always_first()),
        "always_first of Last did not panic"
    );
    ensure!(
        panics(|| Either::<[Never; 0], PB>::First([]).always_last()),
        "always_last of First did not panic"
    );
    ensure!(
        panics(|| EitherBoth::<PA, [Never; 0]>::Last([]).always_first()),
        "EitherBoth::always_first of Last did not panic"
    );
    ensure!(
        panics(|| EitherBoth::<[Never; 0], PB>::First([]).always_last()),
        "EitherBoth::always_last of First did not panic"
    );
    ensure!(Miss::from(a.clone()).0 == a, "Miss changed its payload");
    ensure!(Fatal::from(bb.clone()).0 == bb, "Fatal changed its payload");
    let c = first().clone();
    ensure!(c.unwrap_first() == a, "clone changed the value");
    let c = EitherBoth::Both(a.clone(), bb.clone()).clone();
    ensure!(
        matches!(&c, EitherBoth::Both(x, y) if *x == a && *y == bb),
        "clone changed the values"
    );
    // done and fail keep what they are given
    let r: parcom_core::ParseResult<&str, PA, Miss<PB>> = parcom_util::done(a.clone(), "rest");
    ensure!(
        matches!(&r, Ok((v, "rest")) if *v == a),
        "done changed what it was given"
    );
    let r: parcom_core::ParseResult<&str, PA, Miss<PB>> = parcom_util::fail(bb.clone(), "rest");
    match r {
        Err((Miss(e), l)) => {
            ensure!(e == bb, "fail changed the error");
            // SAFETY: nothing depends on the location being hidden here.
            ensure!(unsafe { l.unwrap() } == "rest", "fail changed the location");
        }
        Ok(_) => return Err(Viol("fail gave a success".into())),
    }
    if depth >= 2 && st.distinct(&d) && st.want_sample() {
        st.sample(|| format!("{d}: terminating={want}"));
    }
    Ok(())
}

fn typed_char_parsers(rng: &mut Rng, st: &mut Stats) -> Case {
    // the public constructors on plain text
    let c = *rng.pick(&CONFUSABLE);
    let input: String = (0..rng.below(4)).map(|_| *rng.pick(&CONFUSABLE)).collect();
    let s = input.as_str();
    match now(Parser::parse(&the_char(c), s)) {
        Ok((_, r)) => ensure!(
            input.starts_with(c) && r == &input[c.len_utf8()..],
            "the_char({c:?}) on {input:?} left {r:?}"
        ),
        Err((e, _)) => ensure!(
            !input.starts_with(c) && !e.should_terminate(),
            "the_char({c:?}) rejected {input:?}"
        ),
    }
    match now(any_char::<&str>().parse_once(s)) {
        Ok((v, r)) => ensure!(
            Some(v) == input.chars().next() && r == &input[v.len_utf8()..],
            "any_char on {input:?} gave {v:?} and left {r:?}"
        ),
        Err(_) => ensure!(input.is_empty(), "any_char rejected {input:?}"),
    }
    ensure!(
        BytesDelta::from_char(c).to_bytes() == c.len_utf8()
            && BytesDelta::from_str(s).to_bytes() == s.len(),
        "lengths of {c:?} {s:?}"
    );
    st.add("typed_cases", 1);
    Ok(())
}

/// errors of the typed pipelines
#[derive(Debug, PartialEq, Eq)]
enum Odd {
    Missed,
    Bad(char),
    Fatal(char),
}
impl ParseError for Odd {
    fn should_terminate(&self) -> bool {
        matches!(self, Odd::Fatal(_))
    }
}
impl<T> From<Miss<T>> for Odd {
    fn from(_: Miss<T>) -> Self {
        Odd::Missed
    }
}

/// pipelines written out with their own types: unit outputs, strings, maps, sets, tuples of
/// collections, the way a program would write them
fn typed_case(mini: bool, rng: &mut Rng, st: &mut Stats) -> Case {
    let alphabet = *rng.pick(&[&['a', 'b'][..], &['a', 'é', 'あ', '😀'], &CONFUSABLE]);
    let c = *rng.pick(alphabet);
    let run = match rng.below(30) {
        _ if mini => rng.below(6),
        0 => *rng.pick(&[255usize, 256, 257, 1000, 4096]),
        1 => *rng.pick(&[65_535usize, 65_536, 65_537]),
        _ => rng.below(6),
    };
    let mut input: Vec<char> = vec![c; run];
    for _ in 0..rng.below(8) {
        input.push(*rng.pick(alphabet));
    }
    let text: String = input.iter().collect();
    let s = text.as_str();
    let left = |s: &&str| s.len();
    let most = if mini { 12 } else { 5000 };
    if run < 1000 && rng.chance(1, 2) {
        let pend = *rng.pick(&[0, 60]);
        let doc = random_doc::<Text>(rng, &input, pend);
        typed_pipelines(|| TSeq::<Text>::new(&doc), TSeq::remaining, &input, c, most, rng, st)?;
        doc.check_misuse()
    } else {
        typed_pipelines(|| s, left, &input, c, most, rng, st)
    }
}

fn typed_pipelines<S>(
    mk: impl Fn() -> S,
    left: impl Fn(&S) -> usize,
    input: &[char],
    c: char,
    most: usize,
    rng: &mut Rng,
    st: &mut Stats,
) -> Case
where
    S: RewindSequence<Segment = str, Length = BytesDelta>,
{
    use parcom_parsers::extension::{IterativeParserExtension, ParserExtension};
    use std::collections::{BTreeMap, BTreeSet, HashSet, LinkedList, VecDeque};

    let n = match rng.below(12) {
        0 => usize::MAX,
        1 => *rng.pick(&[255, 256, 257, 65_535, 65_536, 65_537, 1 << 32]),
        2 => input.len(),
        3 => 0,
        _ => rng.below(8),
    };
    let rest = |k: usize| input[k..].iter().map(|c| c.len_utf8()).sum::<usize>();
    let lead = input.iter().take_while(|x| **x == c).count();
    let until = input.iter().take_while(|x| **x != c).count();
    let which = rng.below(25);
    let what = |name: &str| format!("{name} with {c:?} and {n} on {}", show_input(input));

    // the same parser by reference, twice, and by value
    macro_rules! check {
        ($name:expr, $p:expr, $want:expr, $k:expr) => {{
            let p = $p;
            let want = $want;
            for _ in 0..2 {
                match exec::run(Parser::parse(&p, mk())).done()? {
                    Ok((v, r)) => {
                        ensure!(v == want, "{}: expected {want:?} but got {v:?}", what($name));
                        let k: Option<usize> = $k;
                        if let Some(k) = k {
                            ensure!(left(&r) == rest(k), "{}: {} units left instead of {}", what($name), left(&r), rest(k));
                        }
                    }
                    Err((e, _)) => return Err(Viol(format!("{}: failed, terminating: {}", what($name), e.should_terminate()))),
                }
            }
            match exec::run(ParserOnce::parse_once(p, mk())).done()? {
                Ok((v, r)) => {
                    ensure!(v == want, "{} by value: expected {want:?} but got {v:?}", what($name));
                    let k: Option<usize> = $k;
                    if let Some(k) = k {
                        ensure!(left(&r) == rest(k), "{} by value: {} units left instead of {}", what($name), left(&r), rest(k));
                    }
                }
                Err((e, _)) => return Err(Viol(format!("{} by value: failed, terminating: {}", what($name), e.should_terminate()))),
            }
        }};
    }
    macro_rules! check_err {
        ($name:expr, $p:expr, $want:expr) => {{
            let p = $p;
            for _ in 0..2 {
                match exec::run(Parser::parse(&p, mk())).done()? {
                    Ok((v, _)) => return Err(Viol(format!("{}: gave {v:?} instead of an error", what($name)))),
                    Err((e, _)) => ensure!(e == $want, "{}: failed with {e:?} instead of {:?}", what($name), $want),
                }
            }
            match exec::run(ParserOnce::parse_once(p, mk())).done()? {
                Ok((v, _)) => return Err(Viol(format!("{} by value: gave {v:?} instead of an error", what($name)))),
                Err((e, _)) => ensure!(e == $want, "{} by value: failed with {e:?} instead of {:?}", what($name), $want),
            }
        }};
    }

    let any = || any_char::<S>().repeat();
    let the = || the_char(c).repeat();
    match which {
        0 => {
            let k = n.min(lead);
            check!("elements taken into units", the().take(n).collect::<Vec<()>>().map(|(v, _)| v), vec![(); k], Some(k));
        }
        1 => {
            let k = n.min(input.len());
            check!("characters taken into a string", any().take(n).collect::<String>().map(|(v, _)| v), input[..k].iter().collect::<String>(), Some(k));
        }
        2 => check!(
            "a set of those before an element",
            any().map_while(move |x| (x != c).then_some(x)).collect::<HashSet<char>>().map(|(v, _)| v),
            input[..until].iter().copied().collect::<HashSet<char>>(),
            Some(until)
        ),
        3 => {
            let f = |st: &mut u64, x: char| {
                *st = st.wrapping_mul(31).wrapping_add(x as u64);
                (x, *st)
            };
            let k = n.min(input.len());
            let mut state = 7;
            let want: BTreeMap<char, u64> = input[..k].iter().map(|x| f(&mut state, *x)).collect();
            check!("a map of running states", any().scan(7u64, f).take(n).collect::<BTreeMap<char, u64>>().map(|(v, _)| v), want, Some(k));
        }
        4 => check!("a count by units", any().map_each(|_| ()).fold(0usize, |n, ()| n + 1), input.len(), Some(input.len())),
        5 => check!("units into a unit", any().map_each(drop).collect::<()>().map(|(v, _)| v), (), Some(input.len())),
        6 => {
            let k = n.min(1).min(lead);
            check!("an optional element taken", the_char(c).optional().take(n).collect::<Vec<()>>().map(|(v, _)| v), vec![(); k], Some(k));
        }
        7 => check!(
            "mapped up to a recoverable error",
            any().try_map_each(move |x| if x == c { Err(Odd::Bad(x)) } else { Ok(x as u32) }).collect::<VecDeque<u32>>().map(|(v, _)| v),
            input[..until].iter().map(|x| *x as u32).collect::<VecDeque<u32>>(),
            Some(until)
        ),
        8 => {
            let p = any().try_map_each(move |x| if x == c { Err(Odd::Fatal(x)) } else { Ok(()) }).collect::<Vec<()>>();
            if until == input.len() {
                check!("units with an error that never comes", p.map(|(v, _)| v), vec![(); until], Some(until));
            } else {
                check_err!("units up to a terminating error", p, Odd::Fatal(c));
            }
        }
        9 => {
            let k = n.min(input.len());
            check!(
                "two collections at once",
                any().map_each(|x| (x, ())).take(n).collect::<(String, Vec<()>)>().map(|(v, _)| v),
                (input[..k].iter().collect::<String>(), vec![(); k]),
                Some(k)
            );
        }
        10 => {
            let m = rng.below(6);
            let k = n.min(until).min(m);
            check!(
                "taken twice",
                any().take(n).map_while(move |x| (x != c).then_some(())).take(m).scan((), |_, ()| ()).collect::<LinkedList<()>>().map(|(v, _)| v),
                std::iter::repeat(()).take(k).collect::<LinkedList<()>>(),
                if k == m || k == n || k == until { Some(k) } else { None }
            );
        }
        11 => check!("repeated units", the().map(|(v, _)| v.len()), lead, Some(lead)),
        12 => {
            let n = n.min(most);
            let k = n.min(lead);
            check!(
                "items that take nothing",
                the_char(c).optional().repeat().take(n).map_each(|r| r.is_ok()).collect::<Vec<bool>>().map(|(v, _)| v),
                (0..n).map(|i| i < k).collect::<Vec<bool>>(),
                Some(k)
            );
        }
        13 => {
            let n = n.min(most);
            check!("empty literals", atom("").repeat().take(n).collect::<Vec<()>>().map(|(v, _)| v), vec![(); n], Some(0));
            check!("empty literals counted", atom("").repeat().take(n).fold(0usize, |n, ()| n + 1), n, Some(0));
        }
        14 => check!(
            "folded into a string",
            any().fold(String::new(), |mut s, x| {
                s.push(x);
                s
            }),
            input.iter().collect::<String>(),
            Some(input.len())
        ),
        15 => check!("folded into nothing", any().fold((), |(), _| ()), (), Some(input.len())),
        16 => {
            let k = n.min(input.len());
            check!(
                "folded into a box",
                any().take(n).fold(None, |a: Option<Box<(usize, char)>>, x| Some(Box::new((a.map_or(0, |a| a.0) + 1, x)))),
                k.checked_sub(1).map(|i| Box::new((k, input[i]))),
                Some(k)
            );
        }
        17 => {
            let f = |st: &mut Vec<char>, x: char| {
                st.push(x);
                st.len()
            };
            let k = n.min(input.len()).min(300);
            check!("scanned with a growing state", any().take(k).scan(vec![], f).collect::<Vec<usize>>().map(|(v, _)| v), (1..=k).collect::<Vec<_>>(), Some(k));
        }
        18 => check!("a set of units", any().map_each(|_| ()).collect::<BTreeSet<()>>().map(|(v, _)| v), input.iter().map(|_| ()).collect::<BTreeSet<()>>(), Some(input.len())),
        19 => {
            let k = n.min(input.len());
            check!(
                "no value at all",
                any().take(n).map_while(|_| None::<Never>).collect::<Vec<Never>>().map(|(v, _)| v.len()),
                0,
                Some(0)
            );
            check!("large values", any().take(n.min(40)).map_each(|x| [x as u64; 40]).collect::<Vec<[u64; 40]>>().map(|(v, _)| v), input[..k.min(40)].iter().map(|x| [*x as u64; 40]).collect::<Vec<_>>(), Some(k.min(40)));
        }
        20 => {
            let k = input.len() / 2 * 2;
            check!(
                "pairs in a row",
                any_char::<S>().join(any_char()).map(|(a, b)| (b, a)).repeat().collect::<Vec<(char, char)>>().map(|(v, _)| v),
                input.chunks_exact(2).map(|w| (w[1], w[0])).collect::<Vec<_>>(),
                Some(k)
            );
        }
        21 => {
            let p = || the_char(c).map(|()| 0u8).or(any_char::<S>().map(|_| 1u8)).unify::<u8, u8, u8>();
            check!("one or the other", p().repeat().collect::<Vec<u8>>().map(|(v, _)| v), input.iter().map(|x| (*x != c) as u8).collect::<Vec<_>>(), Some(input.len()));
        }
        22 => {
            let p = the().take(n).collect::<Vec<()>>();
            let q = the_char(c).repeat();
            let k = n.min(lead);
            check!(
                "one pipeline after another",
                p.join(q).map(|((v, _), (w, _))| (v.len(), w.len())),
                (k, lead - k),
                Some(lead)
            );
        }
        23 => {
            // a pipeline of pipelines: runs of one element each closed by any other character
            let mut want = vec![];
            let mut at = 0;
            loop {
                let m = input[at..].iter().take_while(|x| **x == c).count();
                if at + m >= input.len() {
                    break;
                }
                want.push((m, input[at + m]));
                at += m + 1;
            }
            check!(
                "pipelines in a pipeline",
                the().collect::<Vec<()>>().join(any_char::<S>()).map(|((v, _), x)| (v.len(), x)).repeat().collect::<Vec<_>>().map(|(v, _)| v),
                want,
                Some(at)
            );
        }
        _ => {
            let p = any().and_then(move |(v, _): (Vec<char>, _)| if v.contains(&c) { Err(Odd::Bad(c)) } else { Ok(v.len()) });
            if input.contains(&c) {
                check_err!("all of it judged", p, Odd::Bad(c));
            } else {
                check!("all of it judged", p, input.len(), Some(input.len()));
            }
        }
    }
    st.add("typed_pipelines", 1);
    st.distinct((which, n, c, input));
    Ok(())
}

const EVERYWHERE: [&str; 5] = ["by_reference", "by_value", "on_items", "on_pieces", "on_measured"];

fn main() {
    let a = Args::parse();
    let mut r = Report::new(&a);
    let kinds: Vec<String> = [
        "lit", "any", "the", "eat", "call", "join", "or", "optional", "repeat", "map", "map_err",
        "and_then", "unify", "unify_err", "ref", "boxed", "bin_expr", "collect", "fold",
    ]
    .iter()
    .map(|k| format!("node_{k}"))
    .collect();
    let all: Vec<&str> = kinds.iter().map(|s| s.as_str()).collect();
    let mut req: Vec<&str> = Vec::new();
    let min;
    match a.prop.as_str() {
        "C01" => {
            r.part("grammars", a.cases(150_000, 25), |g, s| {
                grammar_case(Focus::Meaning, g, s)
            });
            r.part("long", a.cases(500, 0), |g, s| long_case(Focus::Meaning, false, g, s));
            r.part("huge", a.cases(4, 0), |g, s| long_case(Focus::Meaning, true, g, s));
            req.extend(["long_runs", "huge_runs"]);
            req.extend(all);
            req.extend(["outcome_success", "outcome_recoverable", "outcome_terminating"]);
            req.extend(EVERYWHERE);
            min = 30_000;
        }
        "C02" => {
            r.part("grammars", a.cases(150_000, 25), |g, s| {
                grammar_case(Focus::Fatal, g, s)
            });
            r.part("pipelines", a.cases(40_000, 10), |g, s| {
                let cfg = GenCfg {
                    fatal: 40,
                    iter: 10,
                    depth: 2,
                    modes: g.chance(1, 2),
                    ..GenCfg::default()
                };
                fatal_pipeline(cfg, g, s)
            });
            r.part("long", a.cases(500, 0), |g, s| long_case(Focus::Fatal, false, g, s));
            r.part("huge", a.cases(4, 0), |g, s| long_case(Focus::Fatal, true, g, s));
            req.extend(["long_runs", "huge_runs"]);
            req.extend(["outcome_success", "outcome_terminating", "node_collect", "node_fold", "node_bin_expr"]);
            req.extend(EVERYWHERE);
            min = 10_000;
        }
        "C03" => {
            r.part("grammars", a.cases(150_000, 25), |g, s| {
                grammar_case(Focus::Log, g, s)
            });
            r.part("long", a.cases(500, 0), |g, s| long_case(Focus::Log, false, g, s));
            r.part("huge", a.cases(4, 0), |g, s| long_case(Focus::Log, true, g, s));
            req.extend(["long_runs", "huge_runs"]);
            req.extend(["recoveries", "node_eat", "node_or", "node_optional", "node_repeat", "node_bin_expr", "node_collect", "node_fold"]);
            req.extend(EVERYWHERE);
            min = 30_000;
        }
        "C04" => {
            r.part("uses", a.cases(60_000, 15), |g, s| reuse_case(false, g, s));
            r.part("long", a.cases(400, 0), |g, s| reuse_case(true, g, s));
            req.push("long_runs");
            req.extend(all);
            req.extend(["abandoned_by_drop", "abandoned_by_panic", "overlapping_uses", "turns_between_uses"]);
            min = 20_000;
        }
        "C05" => {
            r.part("splits", a.cases(100_000, 20), |g, s| split_case(false, g, s));
            r.part("long", a.cases(400, 0), |g, s| split_case(true, g, s));
            req.push("long_runs");
            req.extend(["suspensions", "segments"]);
            min = 30_000;
        }
        "C06" => {
            let small = ['a', 'é', 'è', 'あ', 'い', '😀', '😁'];
            let np = 1 + 7 + 49;
            let ni = 1 + 7 + 49 + 343;
            let next = std::sync::atomic::AtomicUsize::new(0);
            let exhaustive = if a.mini { 40 } else { (np * ni) as u64 };
            r.part("exhaustive", exhaustive, |g, s| {
                let i = if a.mini || a.only.is_some() {
                    g.below(np * ni)
                } else {
                    next.fetch_add(1, std::sync::atomic::Ordering::Relaxed)
                };
                if i >= np * ni {
                    return Ok(());
                }
                matcher_pair(&nth_word(&small, i % np), &nth_word(&small, i / np), s, 0)
            });
            let block = std::sync::atomic::AtomicU32::new(0);
            r.part("sweep", if a.mini { 0 } else { 1088 }, |g, s| {
                let b = match a.only {
                    Some(_) => g.below(1088) as u32,
                    None => block.fetch_add(1, std::sync::atomic::Ordering::Relaxed),
                };
                matcher_sweep(b % 1088, g, s)
            });
            r.part("random", a.cases(20_000, 20), matcher_random);
            r.part("long", a.cases(3000, 0), matcher_long);
            if !a.mini {
                r.part("huge", a.cases(24, 0), matcher_huge);
                req.push("huge_literals");
            }
            r.part("types", a.cases(40_000, 20), |g, s| {
                matcher_types(g, s)?;
                typed_char_parsers(g, s)
            });
            req.extend(["segments", "matcher_calls", "typed_cases", "long_patterns", "swept_blocks"]);
            min = 20_000;
        }
        "C07" => {
            r.part("chains", a.cases(150_000, 20), |g, s| chain_case(false, false, g, s));
            r.part("long", a.cases(400, 0), |g, s| chain_case(false, true, g, s));
            req.push("long_chains");
            req.extend(["outcome_success", "operators"]);
            min = 30_000;
        }
        "C08" => {
            r.part("chains", a.cases(150_000, 20), |g, s| chain_case(true, false, g, s));
            r.part("long", a.cases(400, 0), |g, s| chain_case(true, true, g, s));
            req.push("long_chains");
            req.extend(["outcome_success", "outcome_terminating", "outcome_recoverable"]);
            min = 30_000;
        }
        "C11" => {
            let mini = a.mini;
            r.part("endings", a.cases(12_000, 12), |g, s| release_case(mini, g, s));
            if !mini {
                r.part("long", a.cases(60, 0), release_long);
                req.push("long_runs");
            }
            req.extend(["drops_at_suspension", "panics_in_callbacks", "owned_items", "node_bin_expr", "node_fold"]);
            min = 3_000;
        }
        "C12" => {
            let mini = a.mini;
            r.part("pipelines", a.cases(200_000, 25), |g, s| {
                grammar_case(Focus::Pipeline, g, s)
            });
            r.part("long", a.cases(500, 0), |g, s| long_case(Focus::Pipeline, false, g, s));
            r.part("huge", a.cases(4, 0), |g, s| long_case(Focus::Pipeline, true, g, s));
            req.extend(["long_runs", "huge_runs"]);
            r.part("typed", a.cases(20_000, 60), |g, s| typed_case(mini, g, s));
            req.extend(["node_collect", "node_fold", "outcome_success", "outcome_terminating", "typed_pipelines"]);
            req.extend(EVERYWHERE);
            min = 30_000;
        }
        "C30" => {
            r.part("prefixes", a.cases(120_000, 20), |g, s| need_case(false, g, s));
            r.part("long", a.cases(400, 0), |g, s| need_case(true, g, s));
            r.part("literals", a.cases(1500, 0), need_literal);
            req.extend(["long_runs", "suspensions", "segments", "unread_units", "needs_the_end"]);
            req.extend(["outcome_success", "outcome_recoverable", "outcome_terminating"]);
            req.extend(all);
            min = 30_000;
        }
        "C29" => {
            r.part("wrappers", a.cases(60_000, 50), wrapper_case);
            r.part("types", a.cases(60_000, 60), wrapper_types);
            req.extend(["terminating", "recoverable", "wrapped_types"]);
            min = 2_000;
        }
        p => panic!("unknown property {p}"),
    }
    r.finish(min, &req);
}

/// pipelines with many terminating errors, both sinks over every source
fn fatal_pipeline(cfg: GenCfg, rng: &mut Rng, st: &mut Stats) -> Case {
    let (root, input) = {
        let mut g = Gen::new(rng, cfg);
        let mut root = g.iter(1);
        if let K::Iter(src, _, _, sink) = &mut root.k {
            if g.rng.chance(1, 2) {
                *src = Src::Custom;
            }
            if g.rng.chance(1, 2) {
                *sink = Sink::Collect;
            }
        }
        if let K::Iter(Src::Custom, x, _, _) = &root.k {
            if x.nullable() {
                return Ok(());
            }
        }
        let input = g.sentence(&root);
        (root, input)
    };
    count_kinds(&root, st);
    let Some(want) = expect(&root, &input, <&str as Input>::width) else {
        return Ok(());
    };
    outcome_class(&want.seen, st);
    let cx = Cx {
        focus: Focus::Fatal,
        root: &root,
        input: &input,
    };
    cx.on_text(&want, rng, st)?;
    match rng.below(4) {
        0 => cx.on_items(rng, st)?,
        1 => cx.on_doc::<Text>(rng, st)?,
        2 => cx.on_doc::<Items>(rng, st)?,
        _ => {}
    }
    if matches!(want.seen, Seeing::Err(_, true)) {
        st.distinct((&root, &input));
    }
    Ok(())
}
