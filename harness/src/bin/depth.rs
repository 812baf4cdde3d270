//! C27: long flat inputs and long streams on a small stack. Overflowing it ends the process, which
//! check.py reports; before that, the stack addresses seen in callbacks and destructors must not
//! depend on the length.
use parcom_verif::driver::{Args, Case, Report, Stats, Viol};
use parcom_verif::flat::*;
use parcom_verif::rng::Rng;
use parcom_verif::tseq::{Doc, Items, TSeq, Text};
use std::io::Write;
use std::sync::atomic::{AtomicUsize, Ordering};

/// allowed difference between a short and a long run
const SLACK: usize = 24 << 10;

// ---- driver ---------------------------------------------------------------------------------------
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Kind {
    Str,
    Slice,
    Pieces,
    ItemPieces,
    Life(Life),
}

/// (stack span, marks)
fn small_stack(what: (Kind, Option<Shape>), n: usize, seed: u64) -> Result<(usize, usize), Viol> {
    println!("@@DOING {what:?} with {n} elements on a stack of {} KiB", STACK >> 10);
    let _ = std::io::stdout().flush();
    let chars: Vec<char> = what.1.map(|s| input(s, n, seed)).unwrap_or_default();
    let text: String = chars.iter().collect();
    std::thread::scope(|sc| {
        std::thread::Builder::new()
            .stack_size(STACK)
            .spawn_scoped(sc, || {
                marks();
                // nothing outlives this closure
                let s: &'static str = unsafe { &*(text.as_str() as *const str) };
                let v: &'static [char] = unsafe { &*(chars.as_slice() as *const [char]) };
                let mut rng = Rng::new(seed ^ 77);
                let mut cuts = |width: fn(char) -> usize| {
                    let mut at = 0;
                    let mut c = vec![];
                    for x in &chars {
                        if rng.chance(2, 3) {
                            c.push(at);
                        }
                        at += width(*x);
                    }
                    c
                };
                match (what.0, what.1) {
                    (Kind::Life(l), _) => live(l, n)?,
                    (Kind::Str, Some(sh)) => parse(sh, n, s)?,
                    (Kind::Slice, Some(sh)) => parse(sh, n, v)?,
                    (Kind::Pieces, Some(sh)) => {
                        let doc = Doc::<Text>::new(v, cuts(char::len_utf8), 40, seed);
                        doc.set_limit(u64::MAX);
                        parse(sh, n, TSeq::new(&doc))?
                    }
                    (Kind::ItemPieces, Some(sh)) => {
                        let doc = Doc::<Items>::new(v, cuts(|_| 1), 40, seed);
                        doc.set_limit(u64::MAX);
                        parse(sh, n, TSeq::new(&doc))?
                    }
                    _ => unreachable!(),
                }
                let (low, high, n) = marks();
                Ok((high.saturating_sub(low), n))
            })
            .unwrap()
            .join()
            .unwrap_or_else(|p| std::panic::resume_unwind(p))
    })
}
fn case(what: (Kind, Option<Shape>), long: usize, seed: u64, st: &mut Stats) -> Case {
    let short = small_stack(what, 400, seed)?;
    let lengthy = small_stack(what, long, seed)?;
    st.max("max_stack_span_bytes", lengthy.0 as u64);
    st.max("max_elements", long as u64);
    st.add("stack_positions_observed", lengthy.1 as u64);
    if lengthy.0 > short.0 + SLACK {
        return Err(Viol(format!(
            "{what:?}: callbacks and destructors span {} bytes of stack with {long} elements, {} with 400",
            lengthy.0, short.0
        )));
    }
    st.add("long_runs", 1);
    st.distinct((what, seed));
    st.sample(|| format!("{what:?} with {long} elements: a stack span of {} bytes, with 400 elements {}", lengthy.0, short.0));
    Ok(())
}

fn main() {
    let a = Args::parse();
    assert_eq!(a.prop, "C27");
    let mut r = Report::new(&a);
    let deep = a.scale > 4.0;
    let long = if deep { 2_000_000 } else { 300_000 };
    let mut all = vec![];
    for l in LIVES {
        all.push((Kind::Life(l), None));
    }
    for s in SHAPES {
        for k in [Kind::Str, Kind::Slice, Kind::Pieces, Kind::ItemPieces] {
            all.push((k, Some(s)));
        }
    }
    let next = AtomicUsize::new(0);
    let seed = a.seed;
    r.part("flat", all.len() as u64, |_, st| {
        let i = next.fetch_add(1, Ordering::Relaxed);
        let what = all[i % all.len()];
        let long = match what.0 {
            Kind::Pieces | Kind::ItemPieces => long / 3,
            _ => long,
        };
        case(what, long, seed.wrapping_add(i as u64), st)
    });
    r.finish(60, &["long_runs", "stack_positions_observed"]);
}
