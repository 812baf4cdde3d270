//! C23-C26: line/column metering, line-end recognisers, measured inputs and in-memory inputs.
use parcom_core::measured::{IntoMeasured, Meter, Metrics};
use parcom_core::primitive::BytesDelta;
use parcom_core::{
    MeasuredSequence, Parser, ParserOnce, PeekableSequence, RewindSequence, SegmentStream, Sequence, SequenceSegment,
    UnknownLocation,
};
use parcom_metrics::end_of_line::{EndOfLine, EndOfLineMatch, CR, CRLF, LF};
use parcom_metrics::{LineColumn, LineColumnMeter};
use parcom_verif::driver::{guarded, Args, Case, Report, Stats, Viol};
use parcom_verif::ensure;
use parcom_verif::huge::endless;
use parcom_verif::exec::{now, run};
use parcom_verif::grammar::{
    build, log_reset, log_take, show_input, Gen, GenCfg, Input, MItems, MStr, Seen, SeenI,
    SeenIMetrics, SeenMetrics, Seeing,
};
use parcom_verif::ledger;
use parcom_verif::rng::Rng;
use std::fmt::Debug;
use std::future::IntoFuture;
use std::sync::atomic::{AtomicUsize, Ordering};

// ---- oracle of line ends --------------------------------------------------------------------------
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Style {
    Lf,
    Cr,
    CrLf,
}
/// does a terminator end with character i?
fn ends_line(style: Style, t: &[char], i: usize) -> bool {
    match style {
        Style::Lf => t[i] == '\n',
        Style::Cr => t[i] == '\r',
        Style::CrLf => t[i] == '\n' && i > 0 && t[i - 1] == '\r',
    }
}
/// (characters, line, column) after consuming all of t
fn position(style: Style, t: &[char]) -> (usize, usize, usize) {
    if t.is_empty() {
        return (0, 0, 0);
    }
    let last = t.len() - 1;
    let ends: Vec<usize> = (0..last).filter(|i| ends_line(style, t, *i)).collect();
    let start = ends.last().map_or(0, |i| i + 1);
    (t.len(), ends.len() + 1, t.len() - start)
}

/// special characters, ones that only resemble them, one to four bytes
const CHARS: [char; 16] = [
    '\r', '\n', '\r', '\n', 'a', 'é', '漢', '😀', '\u{b}', '\u{c}', '\u{85}', '\u{2028}', '\u{10a}',
    '\u{10d}', '\u{d0a}', '\0',
];
fn some_text(rng: &mut Rng, max: usize) -> Vec<char> {
    let n = rng.below(max + 1);
    let bias = rng.below(4);
    (0..n)
        .map(|_| match bias {
            0 => *rng.pick(&CHARS[..5]),
            1 => *rng.pick(&CHARS),
            2 if rng.chance(1, 8) => *rng.pick(&CHARS[..4]),
            _ => match rng.below(4) {
                0 => char::from_u32(rng.below(0x11_0000) as u32).unwrap_or('x'),
                1 => *rng.pick(&CHARS),
                _ => 'z',
            },
        })
        .collect()
}
fn cut(rng: &mut Rng, n: usize) -> Vec<usize> {
    let style = rng.below(4);
    let mut cuts = vec![0];
    for i in 1..n {
        let c = match style {
            0 => true,
            1 => rng.chance(1, 2),
            2 => rng.chance(1, 6),
            _ => false,
        };
        if c || (style == 0 && rng.chance(1, 4)) {
            cuts.push(i);
            while rng.chance(1, 6) {
                cuts.push(i);
            }
        }
    }
    cuts.push(n);
    if rng.chance(1, 4) {
        cuts.push(n);
    }
    cuts
}
fn string(c: &[char]) -> String {
    c.iter().collect()
}

// ---- C23 ------------------------------------------------------------------------------------------
fn metered<E: EndOfLine + Debug>(
    style: Style,
    t: &[char],
    cuts: &[usize],
    st: &mut Stats,
) -> Case {
    // most meters start at the beginning, others count on from a given position
    let mut start = LineColumn::<E>::default();
    let given = t.len() % 4 == 3;
    if given {
        let k = t.len() / 4 + cuts.len();
        let p = |k: usize| (1usize << [4, 8, 16, 31, 32, 63, 32][k % 7]) - [1, 2, 5, 0][k % 4];
        (start.total_count, start.line, start.column) = (p(k), p(k / 2), p(k / 3));
        st.add("meters_started_elsewhere", 1);
    }
    let mut m = if t.len() % 2 == 0 {
        LineColumnMeter::<E>::default()
    } else {
        LineColumnMeter::<E>::new(start.clone())
    };
    let check = |what: &str, m: &LineColumn<E>, n: usize| -> Case {
        let mut want = position(style, &t[..n]);
        if given && what != "measured text" {
            want.0 += start.total_count;
            want.1 += start.line;
            if n == 0 {
                want.2 = start.column;
            }
        }
        let got = (m.total_count, m.line, m.column);
        if got != want {
            return Err(Viol(format!(
                "{what}: {style:?} on {}, pieces cut at {cuts:?}: after {n} characters (count, line, column) is {got:?} instead of {want:?}",
                show_input(&t[..t.len().min(80)])
            )));
        }
        Ok(())
    };
    let mut seen: Vec<(usize, LineColumn<E>)> = vec![];
    check("meter", &m.metrics(), 0)?;
    for w in cuts.windows(2) {
        m = m.advance(&string(&t[w[0]..w[1]]));
        let now = m.metrics();
        check("meter", &now, w[1])?;
        // asking changes nothing
        check("meter asked again", &m.metrics(), w[1])?;
        if let Some((k, p)) = seen.last() {
            let o = now.cmp(p);
            let want = w[1].cmp(k);
            let consistent = now.partial_cmp(p) == Some(want)
                && (now == *p) == want.is_eq()
                && (now > *p) == want.is_gt()
                && p.cmp(&now) == want.reverse();
            ensure!(
                o == want && consistent,
                "{style:?}: the position after {} characters of {} compares {o:?} with the one after {k}",
                w[1],
                show_input(&t[..t.len().min(80)])
            );
        }
        if let Some((k, p)) = seen.first() {
            ensure!(
                now.cmp(p) == w[1].cmp(k) && (now == *p) == (w[1] == *k),
                "{style:?}: positions after {} and {k} characters of {} compare wrongly",
                w[1],
                show_input(&t[..t.len().min(80)])
            );
        }
        if seen.len() < 2 || w[1] % 3 == 0 {
            seen.push((w[1], now));
        }
    }
    // against the position at the end of another text
    if !given && t.len() > 1 && t.len() < 400 {
        let i = (t.len() * 7 + cuts.len()) % t.len();
        let mut shorter = t.to_vec();
        shorter.remove(i);
        let mut changed = t.to_vec();
        changed[i] = if matches!(t[i], '\r' | '\n') { 'x' } else { ['\n', '\r'][cuts.len() % 2] };
        let triple = |m: &LineColumn<E>| (m.total_count, m.line, m.column);
        let here = m.metrics();
        for other in [shorter, changed] {
            let there = LineColumnMeter::<E>::default().advance(&string(&other)).metrics();
            let same = triple(&here) == triple(&there);
            let o = here.cmp(&there);
            let ordered = (here.total_count == there.total_count
                || o == here.total_count.cmp(&there.total_count))
                && o.is_eq() == same
                && there.cmp(&here) == o.reverse()
                && here.partial_cmp(&there) == Some(o);
            ensure!(
                (here == there) == same && (there == here) == same && ordered,
                "{style:?}: the positions {:?} and {:?} at the ends of two texts compare wrongly",
                triple(&here),
                triple(&there)
            );
            if !same && here.line == there.line && here.column == there.column {
                st.add("same_line_and_column_apart", 1);
            }
            if !same && here.total_count == there.total_count {
                st.add("same_count_apart", 1);
            }
        }
    }
    // through the sequence interface
    let s = string(t);
    let mut q = s.as_str().into_measured::<LineColumn<E>>();
    check("measured text", &q.metrics(), 0)?;
    for w in cuts.windows(2) {
        let n: usize = t[w[0]..w[1]].iter().map(|c| c.len_utf8()).sum();
        q = now(q.advance(BytesDelta::from_bytes(n)));
        check("measured text", &q.metrics(), w[1])?;
    }
    let lines = position(style, t).1;
    st.max("max_lines", lines as u64);
    st.add("positions_checked", 2 * cuts.len() as u64);
    if style == Style::CrLf
        && cuts.iter().any(|c| *c > 0 && *c < t.len() && t[*c - 1] == '\r' && t[*c] == '\n')
    {
        st.add("cuts_inside_crlf", 1);
    }
    Ok(())
}
fn all_styles(t: &[char], cuts: &[usize], st: &mut Stats) -> Case {
    metered::<LF>(Style::Lf, t, cuts, st)?;
    metered::<CR>(Style::Cr, t, cuts, st)?;
    metered::<CRLF>(Style::CrLf, t, cuts, st)
}
fn word(alphabet: &[char], mut i: usize, n: usize) -> Vec<char> {
    (0..n)
        .map(|_| {
            let c = alphabet[i % alphabet.len()];
            i /= alphabet.len();
            c
        })
        .collect()
}
/// all words of one length over CR, LF and two others, all cuts
fn words_case(n: usize, st: &mut Stats) -> Case {
    let alphabet = ['\r', '\n', 'a', '漢'];
    for i in 0..alphabet.len().pow(n as u32) {
        let t = word(&alphabet, i, n);
        for mask in 0..1usize << n.saturating_sub(1) {
            let mut cuts = vec![0];
            cuts.extend((1..n).filter(|k| mask >> (k - 1) & 1 == 1));
            cuts.push(n);
            all_styles(&t, &cuts, st)?;
            st.distinct((&t, &cuts));
        }
    }
    Ok(())
}
fn meter_case(mini: bool, rng: &mut Rng, st: &mut Stats) -> Case {
    let max = if mini { 12 } else { *rng.pick(&[10, 40, 40, 300]) };
    let t = some_text(rng, max);
    let cuts = cut(rng, t.len());
    all_styles(&t, &cuts, st)?;
    if t.len() > 1 && st.distinct((&t, &cuts)) && st.want_sample() {
        st.sample(|| format!("{} cut at {cuts:?}: {:?}", show_input(&t), position(Style::CrLf, &t)));
    }
    Ok(())
}
/// every character, among terminators
fn meter_sweep(block: u32, rng: &mut Rng, st: &mut Stats) -> Case {
    let all: Vec<char> = (block * 1024..(block + 1) * 1024).filter_map(char::from_u32).collect();
    for part in all.chunks(32) {
        let mut t = vec![];
        for c in part {
            match rng.below(6) {
                0 => t.push('\r'),
                1 => t.push('\n'),
                _ => {}
            }
            t.push(*c);
        }
        let cuts = cut(rng, t.len());
        all_styles(&t, &cuts, st)?;
    }
    st.add("swept_characters", all.len() as u64);
    Ok(())
}
/// counts beyond 24 bits
fn huge_meter_case(rng: &mut Rng, st: &mut Stats) -> Case {
    fn one<E: EndOfLine + Debug>(unit: &str, ends: bool, rng: &mut Rng, st: &mut Stats) -> Case {
        let n = (1usize << rng.range(20, 24)) + rng.below(1000);
        let per = unit.chars().count();
        let text = unit.repeat(n);
        let mut m = LineColumnMeter::<E>::default();
        let mut at = 0;
        for k in [rng.below(n), n] {
            m = m.advance(&text[at * unit.len()..k.max(at) * unit.len()]);
            at = k.max(at);
            let p = m.metrics();
            let want = match (at, ends) {
                (0, _) => (0, 0, 0),
                (_, true) => (at * per, at, per),
                (_, false) => (at * per, 1, at * per),
            };
            ensure!(
                (p.total_count, p.line, p.column) == want,
                "after {at} times {unit:?} (count, line, column) is {:?} instead of {want:?}",
                (p.total_count, p.line, p.column)
            );
        }
        st.add("huge_texts", 1);
        Ok(())
    }
    match rng.below(6) {
        0 => one::<LF>("\n", true, rng, st),
        1 => one::<LF>("\r", false, rng, st),
        2 => one::<CR>("\r", true, rng, st),
        3 => one::<CR>("é", false, rng, st),
        4 => one::<CRLF>("\r\n", true, rng, st),
        _ => one::<CRLF>("\n", false, rng, st),
    }
}
/// counts beyond 16 bits
fn long_meter_case(rng: &mut Rng, st: &mut Stats) -> Case {
    let n = rng.range(66_000, 140_000);
    let style = rng.below(3);
    let mut t: Vec<char> = Vec::with_capacity(n);
    while t.len() < n {
        match style {
            0 => t.extend(['\r', '\n']),
            1 => t.push('x'),
            _ => t.extend(some_text(rng, 50)),
        }
    }
    let mut cuts: Vec<usize> = (0..rng.below(6)).map(|_| rng.below(n)).collect();
    cuts.extend([0, t.len()]);
    cuts.sort();
    st.add("long_texts", 1);
    all_styles(&t, &cuts, st)
}

// ---- C24 ------------------------------------------------------------------------------------------
fn recognise<E: EndOfLine>(style: Style, t: &[char]) -> Case {
    let mut e = E::default();
    for i in 0..t.len() {
        let got = e.next(t[i]);
        let want = if ends_line(style, t, i) {
            EndOfLineMatch::Match
        } else if style == Style::CrLf && t[i] == '\r' {
            EndOfLineMatch::PartialMatch
        } else {
            EndOfLineMatch::NotMatch
        };
        ensure!(
            got == want,
            "{style:?} reports {got:?} instead of {want:?} at the last character of {}",
            show_input(&t[i.saturating_sub(30)..=i])
        );
    }
    Ok(())
}
fn recognise_all(t: &[char]) -> Case {
    recognise::<LF>(Style::Lf, t)?;
    recognise::<CR>(Style::Cr, t)?;
    recognise::<CRLF>(Style::CrLf, t)
}
fn recogniser_words(n: usize, st: &mut Stats) -> Case {
    let alphabet = ['\r', '\n', 'a', '漢', '\u{85}'];
    for i in 0..alphabet.len().pow(n as u32) {
        let t = word(&alphabet, i, n);
        recognise_all(&t)?;
        st.add("characters_fed", 3 * n as u64);
        if t.contains(&'\r') || t.contains(&'\n') {
            st.distinct(&t);
        }
    }
    Ok(())
}
fn recogniser_random(rng: &mut Rng, st: &mut Stats) -> Case {
    let t = some_text(rng, 200);
    recognise_all(&t)?;
    st.add("characters_fed", 3 * t.len() as u64);
    st.distinct(&t);
    if st.want_sample() {
        st.sample(|| show_input(&t));
    }
    Ok(())
}
/// every single character alone, after a CR and before an LF
fn recogniser_all_chars(k: usize, of: usize, st: &mut Stats) -> Case {
    let mut n = 0u64;
    for u in 0..0x11_0000u32 {
        if u as usize % of != k {
            continue;
        }
        if let Some(c) = char::from_u32(u) {
            recognise_all(&['\r', c, '\n', c, '\r', '\n', c])?;
            n += 1;
        }
    }
    st.add("all_characters", n);
    Ok(())
}

// ---- C25 ------------------------------------------------------------------------------------------
/// anchors of a measured sequence that can rewind; none otherwise
struct Rewinds<Q, A> {
    anchor: fn(&Q) -> A,
    rewind: fn(Q, A) -> Q,
    clone: fn(&Q) -> Q,
}

struct Measuring<'t, Q: Sequence, A> {
    name: &'static str,
    text: &'t [char],
    width: fn(char) -> usize,
    delta: fn(usize) -> Q::Length,
    left: fn(&mut Q) -> Vec<char>,
    rewinds: Option<Rewinds<Q, A>>,
}

fn measured_history<Q, A, W>(
    cfg: Measuring<'_, Q, A>,
    q: Q,
    want: impl Fn(&[char]) -> W,
    got: impl Fn(&Q) -> W,
    rng: &mut Rng,
    st: &mut Stats,
) -> Case
where
    Q: MeasuredSequence,
    <Q as Sequence>::Advance: IntoFuture<Output = Q>,
    W: PartialEq + Debug,
{
    let t = cfg.text;
    let mut trail: Vec<String> = vec![];
    let mut q = q;
    let mut pos = 0usize; // characters
    let mut anchors: Vec<(A, usize)> = vec![];
    let check = |q: &mut Q, pos: usize, trail: &[String], st: &mut Stats| -> Case {
        let (w, g) = (want(&t[..pos]), got(q));
        ensure!(
            w == g,
            "{} on {}: [{}]: metrics {g:?} instead of {w:?}",
            cfg.name,
            show_input(t),
            trail.join(", ")
        );
        let l = (cfg.left)(q);
        ensure!(
            l == t[pos..],
            "{} on {}: [{}]: the remaining input is {} instead of {}",
            cfg.name,
            show_input(t),
            trail.join(", "),
            show_input(&l),
            show_input(&t[pos..])
        );
        st.add("metrics_compared", 1);
        Ok(())
    };
    check(&mut q, pos, &trail, st)?;
    let n = rng.range(1, 18);
    for _ in 0..n {
        match rng.below(8) {
            0..=2 => {
                let left = t.len() - pos;
                let over = rng.chance(1, 9);
                let (chars, extra) = if over {
                    (left, rng.excess())
                } else {
                    let far = rng.chance(1, 8);
                    (rng.below(if far { left } else { left.min(4) } + 1), 0)
                };
                let units: usize = t[pos..pos + chars].iter().map(|c| (cfg.width)(*c)).sum();
                let units = units.saturating_add(extra);
                trail.push(format!("advance {units}"));
                q = now(q.advance((cfg.delta)(units)).into_future());
                pos += chars;
                if extra > 0 {
                    st.add("advances_past_the_end", 1);
                }
            }
            3 | 4 if cfg.rewinds.is_some() => {
                trail.push("anchor".into());
                anchors.push(((cfg.rewinds.as_ref().unwrap().anchor)(&q), pos));
            }
            5 | 6 if cfg.rewinds.is_some() => {
                let ok: Vec<usize> = (0..anchors.len()).filter(|i| anchors[*i].1 <= pos).collect();
                if ok.is_empty() {
                    continue;
                }
                let (a, p) = anchors.remove(*rng.pick(&ok));
                trail.push(format!("rewind from {pos} to {p}"));
                q = (cfg.rewinds.as_ref().unwrap().rewind)(q, a);
                if p < pos {
                    st.add("rewinds", 1);
                }
                pos = p;
            }
            7 if cfg.rewinds.is_some() => {
                // a copy moves on its own
                let mut c = (cfg.rewinds.as_ref().unwrap().clone)(&q);
                check(&mut c, pos, &trail, st)?;
                let c = now(c.advance((cfg.delta)(usize::MAX)).into_future());
                drop(c);
                trail.push("clone advanced to the end".into());
            }
            _ => {
                trail.push("look".into());
            }
        }
        check(&mut q, pos, &trail, st)?;
    }
    if trail.len() > 1 && st.distinct((cfg.name, t, &trail)) && st.want_sample() {
        st.sample(|| format!("{} on {}: {}", cfg.name, show_input(t), trail.join(", ")));
    }
    Ok(())
}

fn str_left<Q: Sequence<Segment = str, Length = BytesDelta>>(q: &mut Q) -> Vec<char> {
    let mut segs = q.segments();
    let mut v = vec![];
    while let Some(s) = now(segs.next(BytesDelta::default())) {
        v.extend(s.chars());
    }
    v
}
fn slice_left<Q: Sequence<Segment = [char], Length = usize>>(q: &mut Q) -> Vec<char> {
    let mut segs = q.segments();
    let mut v = vec![];
    while let Some(s) = now(segs.next(0)) {
        v.extend(s);
    }
    v
}
fn rewinds<Q: RewindSequence + Clone>() -> Option<Rewinds<Q, Q::Anchor>> {
    Some(Rewinds { anchor: |q| q.anchor(), rewind: |q, a| now(q.rewind(a)), clone: |q| q.clone() })
}

fn measured_case(mini: bool, rng: &mut Rng, st: &mut Stats) -> Case {
    let t = some_text(rng, if mini { 8 } else { 25 });
    let before = if rng.chance(1, 2) { vec![] } else { some_text(rng, 6) };
    let s = string(&t);
    let full = |c: &[char]| -> Vec<char> { before.iter().chain(c).copied().collect() };
    fn lines<'s, E: EndOfLine + Debug>(
        style: Style,
        s: &'s str,
        t: &[char],
        before: &[char],
        rng: &mut Rng,
        st: &mut Stats,
    ) -> Case {
        let q = if before.is_empty() {
            s.into_measured::<LineColumn<E>>()
        } else {
            s.into_measured_with(LineColumnMeter::<E>::default().advance(&string(before)))
        };
        let cfg = Measuring {
            name: "text measured by line and column",
            text: t,
            width: char::len_utf8,
            delta: BytesDelta::from_bytes,
            left: str_left,
            rewinds: None::<Rewinds<_, ()>>,
        };
        let full = |c: &[char]| -> Vec<char> { before.iter().chain(c).copied().collect() };
        measured_history(
            cfg,
            q,
            |c| position(style, &full(c)),
            |q| {
                let m = q.metrics();
                (m.total_count, m.line, m.column)
            },
            rng,
            st,
        )
    }
    match rng.below(6) {
        0 => lines::<LF>(Style::Lf, &s, &t, &before, rng, st),
        1 => lines::<CR>(Style::Cr, &s, &t, &before, rng, st),
        2 => lines::<CRLF>(Style::CrLf, &s, &t, &before, rng, st),
        3 => {
            let start = Seen { total: 0, text: before.clone(), units: before.len() };
            let q = s.as_str().into_measured_with::<SeenMetrics>(start);
            let cfg = Measuring {
                name: "measured text",
                text: &t,
                width: char::len_utf8,
                delta: BytesDelta::from_bytes,
                left: str_left,
                rewinds: rewinds(),
            };
            measured_history(cfg, q, |c| full(c), |q| q.metrics().0.text, rng, st)
        }
        4 => {
            let start = SeenI(Seen { total: 0, text: before.clone(), units: before.len() });
            let q = t.as_slice().into_measured_with::<SeenIMetrics>(start);
            let cfg = Measuring {
                name: "measured slice",
                text: &t,
                width: |_| 1,
                delta: |n| n,
                left: slice_left,
                rewinds: rewinds(),
            };
            measured_history(cfg, q, |c| full(c), |q| q.metrics().0.text, rng, st)
        }
        _ => {
            let q = if before.is_empty() {
                t.as_slice().into_measured::<usize>()
            } else {
                t.as_slice().into_measured_with::<usize>(before.len())
            };
            let cfg = Measuring {
                name: "counted slice",
                text: &t,
                width: |_| 1,
                delta: |n| n,
                left: slice_left,
                rewinds: rewinds(),
            };
            let k = before.len();
            measured_history(cfg, q, |c| c.len() + k, |q| q.metrics(), rng, st)
        }
    }
}

/// the same grammar on plain and measured input
fn measured_parse(rng: &mut Rng, st: &mut Stats) -> Case {
    let cfg = GenCfg { depth: rng.range(1, 4), eat: 3, fatal: 4, ..GenCfg::default() };
    let depth = cfg.depth;
    let (root, inputs) = {
        let mut g = Gen::new(rng, cfg);
        let root = g.node(depth);
        let inputs: Vec<Vec<char>> = (0..2).map(|_| g.sentence(&root)).collect();
        (root, inputs)
    };
    for input in &inputs {
        ledger::reset();
        // bound the work like the other grammar monitors do
        let mut r = parcom_verif::grammar::Reference::new(&root, input, <&str as Input>::width);
        r.eval(&root, 0);
        if r.over {
            st.add("too_large", 1);
            continue;
        }
        let s: String = input.iter().collect();
        // the parsers are 'static; nothing of them outlives this iteration
        let s: &'static str = unsafe { &*(s.as_str() as *const str) };
        let v: &'static [char] = unsafe { &*(input.as_slice() as *const [char]) };
        let once = rng.chance(1, 2);
        fn go<S: Input>(
            root: &parcom_verif::grammar::Node,
            once: bool,
            s: S,
            consumed: impl Fn(&S) -> Option<Vec<char>>,
        ) -> Result<(Seeing, Vec<parcom_verif::grammar::Ev>, Option<Vec<char>>), Viol> {
            let built = build::<S>(root);
            log_reset(u64::MAX);
            let r = if once {
                run(built.root.clone().parse_once(s)).done()?
            } else {
                run(built.root.parse(s)).done()?
            };
            let seen = Seeing::of(&r);
            let c = match &r {
                Ok((_, rest)) => consumed(rest),
                Err(_) => None,
            };
            Ok((seen, log_take(), c))
        }
        let prefix = vec!['P'; rng.below(2)];
        if rng.chance(1, 2) {
            let (a, la, _) = go::<&'static str>(&root, once, s, |_| None)?;
            let start = Seen { total: s.len(), text: prefix.clone(), units: 0 };
            let (b, lb, seen) =
                go::<MStr>(&root, once, s.into_measured_with(start), |r| Some(r.metrics().0.text))?;
            ensure!(
                a == b && la == lb,
                "grammar {} on {}: {a:?} on text but {b:?} on measured text",
                root.show(),
                show_input(input)
            );
            if let (Seeing::Ok(_, left), Some(c)) = (&a, seen) {
                let mut want = prefix.clone();
                want.extend(s[..s.len() - *left as usize].chars());
                ensure!(
                    c == want,
                    "grammar {} on {}: the measure saw {} although {} was consumed",
                    root.show(),
                    show_input(input),
                    show_input(&c),
                    show_input(&want)
                );
                st.add("measured_parses_succeeded", 1);
            } else {
                st.add("measured_parses_failed", 1);
            }
        } else {
            let (a, la, _) = go::<&'static [char]>(&root, once, v, |_| None)?;
            let start = SeenI(Seen { total: v.len(), text: prefix.clone(), units: 0 });
            let (b, lb, seen) =
                go::<MItems>(&root, once, v.into_measured_with(start), |r| Some(r.metrics().0.text))?;
            ensure!(
                a == b && la == lb,
                "grammar {} on {}: {a:?} on a slice but {b:?} on a measured slice",
                root.show(),
                show_input(input)
            );
            if let (Seeing::Ok(_, left), Some(c)) = (&a, seen) {
                let mut want = prefix.clone();
                want.extend(&v[..v.len() - *left as usize]);
                ensure!(
                    c == want,
                    "grammar {} on {}: the measure saw {} although {} was consumed",
                    root.show(),
                    show_input(input),
                    show_input(&c),
                    show_input(&want)
                );
                st.add("measured_parses_succeeded", 1);
            } else {
                st.add("measured_parses_failed", 1);
            }
        }
        if root.size() > 2 {
            st.distinct((&root, input));
        }
    }
    Ok(())
}

// ---- C26 ------------------------------------------------------------------------------------------
/// an in-memory input type
trait Mem: 'static {
    const NAME: &'static str;
    /// can an anchor of another input be told apart?
    const DISTINCT: bool;
    type Seg: ?Sized + SequenceSegment<Length = Self::Len> + PartialEq + Debug + 'static;
    type Len: Copy + Debug + Default + Ord;
    type Buf;
    fn fill(rng: &mut Rng, n: usize) -> Self::Buf;
    fn whole(b: &Self::Buf) -> &Self::Seg;
    /// ascending positions at which the input may be divided
    fn places(s: &Self::Seg) -> Vec<usize>;
    fn part(s: &Self::Seg, a: usize, b: usize) -> &Self::Seg;
    fn len(n: usize) -> Self::Len;
    fn addr(s: &Self::Seg) -> (usize, usize);
    /// is this a proper value of its type?
    fn sound(_: &Self::Seg) -> bool {
        true
    }
}

struct TextMem;
impl Mem for TextMem {
    const NAME: &'static str = "text";
    const DISTINCT: bool = true;
    type Seg = str;
    type Len = BytesDelta;
    type Buf = String;
    fn fill(rng: &mut Rng, n: usize) -> String {
        (0..n).map(|_| *rng.pick(&CHARS)).collect()
    }
    fn whole(b: &String) -> &str {
        b
    }
    fn places(s: &str) -> Vec<usize> {
        s.char_indices().map(|x| x.0).chain([s.len()]).collect()
    }
    fn part(s: &str, a: usize, b: usize) -> &str {
        &s[a..b]
    }
    fn len(n: usize) -> BytesDelta {
        BytesDelta::from_bytes(n)
    }
    fn addr(s: &str) -> (usize, usize) {
        (s.as_ptr() as usize, s.len())
    }
    fn sound(s: &str) -> bool {
        std::str::from_utf8(s.as_bytes()).is_ok()
    }
}
macro_rules! slice_mem {
    ($n:ident, $t:ty, $name:expr, $distinct:expr, $make:expr) => {
        struct $n;
        impl Mem for $n {
            const NAME: &'static str = $name;
            const DISTINCT: bool = $distinct;
            type Seg = [$t];
            type Len = usize;
            type Buf = Vec<$t>;
            fn fill(_: &mut Rng, n: usize) -> Vec<$t> {
                let f: fn(usize) -> $t = $make;
                (0..n).map(f).collect()
            }
            fn whole(b: &Vec<$t>) -> &[$t] {
                b
            }
            fn places(s: &[$t]) -> Vec<usize> {
                (0..=s.len()).collect()
            }
            fn part(s: &[$t], a: usize, b: usize) -> &[$t] {
                &s[a..b]
            }
            fn len(n: usize) -> usize {
                n
            }
            fn addr(s: &[$t]) -> (usize, usize) {
                (s.as_ptr() as usize, s.len())
            }
        }
    };
}
#[derive(Debug, PartialEq)]
#[repr(align(32))]
struct Wide(u8);
#[derive(Debug, PartialEq)]
struct Odd([u8; 3]);
slice_mem!(Bytes, u8, "bytes", true, |i| i as u8);
slice_mem!(Words, u64, "words", true, |i| i as u64);
slice_mem!(Boxes, Box<usize>, "boxes", true, Box::new);
slice_mem!(Odds, Odd, "three-byte items", true, |i| Odd([i as u8, 1, 2]));
slice_mem!(Wides, Wide, "over-aligned items", true, |i| Wide(i as u8));
slice_mem!(Units, (), "zero-sized items", false, |_| ());

/// `&'a M::Seg` as a sequence, for text and slices
trait In<'a, M: Mem>:
    Sequence<Segment = M::Seg, Length = M::Len> + RewindSequence + PeekableSequence + Copy
{
    fn of(s: &'a M::Seg) -> Self;
    fn seg(self) -> &'a M::Seg;
}
impl<'a> In<'a, TextMem> for &'a str {
    fn of(s: &'a str) -> Self {
        s
    }
    fn seg(self) -> &'a str {
        self
    }
}
impl<'a, T: 'static, M: Mem<Seg = [T], Len = usize>> In<'a, M> for &'a [T] {
    fn of(s: &'a [T]) -> Self {
        s
    }
    fn seg(self) -> &'a [T] {
        self
    }
}

fn memory_history<'a, M: Mem, S: In<'a, M>>(
    whole: &'a M::Seg,
    other: Option<&'a M::Seg>,
    rng: &mut Rng,
    st: &mut Stats,
) -> Case {
    let places = M::places(whole);
    let end = *places.last().unwrap();
    let mut s = S::of(whole);
    let mut at = 0usize; // index into places
    let mut anchors: Vec<(S::Anchor, usize)> = vec![];
    let mut trail: Vec<String> = vec![];
    let n = rng.range(2, 14);
    let is = |got: &M::Seg, at: usize, what: &str, trail: &[String]| -> Case {
        let want = M::part(whole, places[at], end);
        let (ga, wa) = (M::addr(got), M::addr(want));
        // the very same memory, not only equal contents
        ensure!(
            (ga == wa || (ga.1 == 0 && wa.1 == 0)) && got == want,
            "{}: [{}]: {what} is {got:?} (address offset {}) instead of {want:?}",
            M::NAME,
            trail.join(", "),
            ga.0.wrapping_sub(wa.0) as isize
        );
        Ok(())
    };
    for _ in 0..n {
        let left = places.len() - 1 - at;
        match rng.below(9) {
            0 => {
                trail.push("segments".into());
                let mut c = s;
                let mut segs = c.segments();
                let first = now(segs.next(M::Len::default()));
                match first {
                    Some(x) => is(x, at, "the only segment", &trail)?,
                    None => ensure!(left == 0, "{}: [{}]: no segments although input is left", M::NAME, trail.join(", ")),
                }
                for _ in 0..2 {
                    if let Some(x) = now(segs.next(M::Len::default())) {
                        ensure!(
                            M::addr(x).1 == 0,
                            "{}: [{}]: a further segment {x:?}",
                            M::NAME,
                            trail.join(", ")
                        );
                    }
                }
            }
            1 => {
                trail.push("peek".into());
                let mut c = s;
                {
                    let mut p = c.peek();
                    let mut segs = p.segments();
                    match now(segs.next(M::Len::default())) {
                        Some(x) => is(x, at, "the peeked segment", &trail)?,
                        None => ensure!(left == 0, "{}: [{}]: nothing to peek at although input is left", M::NAME, trail.join(", ")),
                    }
                }
                {
                    let p = c.peek();
                    let k = rng.below(left + 1);
                    let mut p = now(p.advance(M::len(places[at + k] - places[at])).into_future());
                    let mut segs = p.segments();
                    match now(segs.next(M::Len::default())) {
                        Some(x) => is(x, at + k, "the advanced peek", &trail)?,
                        None => ensure!(left == k, "{}: [{}]: nothing left of the peek", M::NAME, trail.join(", ")),
                    }
                }
                s = c;
                st.add("peeks", 1);
            }
            2..=4 => {
                if rng.chance(1, 4) {
                    let d = (end - places[at]).saturating_add(rng.excess());
                    trail.push(format!("advance {d}"));
                    s = now(s.advance(M::len(d)).into_future());
                    at = places.len() - 1;
                    st.add("advances_to_or_past_the_end", 1);
                } else {
                    let far = rng.chance(1, 8);
                    let k = rng.below(if far { left } else { left.min(4) } + 1);
                    let d = places[at + k] - places[at];
                    trail.push(format!("advance {d}"));
                    s = now(s.advance(M::len(d)).into_future());
                    at += k;
                }
            }
            5 => {
                trail.push(format!("anchor at {}", places[at]));
                anchors.push((s.anchor(), at));
            }
            6 | 7 => {
                let ok: Vec<usize> = (0..anchors.len()).filter(|i| anchors[*i].1 <= at).collect();
                if !ok.is_empty() {
                    let (a, p) = anchors.remove(*rng.pick(&ok));
                    trail.push(format!("rewind to {}", places[p]));
                    s = if rng.chance(1, 3) {
                        now(UnknownLocation::from(s).rewind(a))
                    } else {
                        now(s.rewind(a))
                    };
                    if at + 1 == places.len() {
                        st.add("rewinds_from_the_end", 1);
                    }
                    at = p;
                    st.add("rewinds", 1);
                }
            }
            _ => {
                if let Some(o) = other {
                    // two remainders that are both nothing at the same place cannot be told apart
                    let (oa, ol) = M::addr(o);
                    let foreign = S::of(o);
                    let (sa, sl) = M::addr(s.seg());
                    if M::DISTINCT && (ol > 0 || sl > 0) && !(sl == 0 && sa == oa) {
                        let size = if ol > 0 { std::mem::size_of_val(o) } else { 0 };
                        let touching = oa + size == sa || sa + std::mem::size_of_val(s.seg()) == oa;
                        // an exhausted input that ends where another one does
                        if sl == 0 && oa + size == sa {
                            continue;
                        }
                        let a = foreign.anchor();
                        trail.push("rewind to an anchor of another input".into());
                        if let Ok(r) = guarded(|| now(s.rewind(a))) {
                            let r = r.seg();
                            return Err(Viol(format!(
                                "{}: [{}]: not refused, the input is now {r:?}",
                                M::NAME,
                                trail.join(", ")
                            )));
                        }
                        st.add("foreign_anchors_refused", 1);
                        if touching {
                            st.add("foreign_anchors_of_adjacent_inputs", 1);
                        }
                        trail.pop();
                    }
                }
            }
        }
        is(s.seg(), at, "the remaining input", &trail)?;
    }
    // advancing by an amount that does not end between characters: any remainder or a panic, but
    // only a proper value
    let d = rng.below(end + 2);
    let odd = guarded(|| now(S::of(whole).advance(M::len(d)).into_future()).seg());
    if let Ok(r) = odd {
        let ((a, l), (wa, wl)) = (M::addr(r), M::addr(whole));
        ensure!(
            M::sound(r) && l <= wl && (l == 0 || !M::DISTINCT || a >= wa),
            "{}: advancing {whole:?} by {d} gives an improper remainder",
            M::NAME
        );
    }
    match guarded(|| whole.split_at_checked(M::len(d))) {
        Ok(got) => ensure!(
            got.is_some() == places.contains(&d)
                && got.is_none_or(|(a, b)| M::sound(a) && M::sound(b) && M::addr(a).1 == d && M::addr(a).1 + M::addr(b).1 == M::addr(whole).1),
            "{}: dividing {whole:?} at {d}: {got:?}",
            M::NAME
        ),
        Err(_) => return Err(Viol(format!("{}: asking whether {whole:?} can be divided at {d} panics", M::NAME))),
    }
    // dividing a segment
    let k = rng.below(places.len());
    let (a, b) = whole.split_at(M::len(places[k]));
    ensure!(
        M::addr(a) == M::addr(M::part(whole, 0, places[k])) && M::addr(b) == M::addr(M::part(whole, places[k], end)),
        "{}: dividing {whole:?} at {} gives {a:?} and {b:?}",
        M::NAME,
        places[k]
    );
    ensure!(SequenceSegment::len(whole) == M::len(end), "{}: the length of {whole:?}", M::NAME);
    st.add("operations", trail.len() as u64);
    if trail.len() > 3 && st.distinct((M::NAME, end, &trail)) && st.want_sample() {
        st.sample(|| format!("{} {whole:?}: {}", M::NAME, trail.join(", ")));
    }
    Ok(())
}

fn memory_case(mini: bool, long: bool, rng: &mut Rng, st: &mut Stats) -> Case {
    fn go<M: Mem>(mini: bool, long: bool, rng: &mut Rng, st: &mut Stats) -> Case
    where
        for<'a> &'a M::Seg: In<'a, M>,
    {
        let n = if mini {
            rng.below(5)
        } else if long {
            st.add("long_inputs", 1);
            rng.range(60_000, 200_000)
        } else {
            *rng.pick(&[0, 1, 2, 3, 8, 30])
        };
        let m = if mini { rng.below(4) } else { rng.below(8) };
        match rng.below(4) {
            0 => {
                let b = M::fill(rng, n);
                memory_history::<M, &M::Seg>(M::whole(&b), None, rng, st)
            }
            1 => {
                // another allocation
                let b = M::fill(rng, n);
                let o = M::fill(rng, m + 1);
                memory_history::<M, &M::Seg>(M::whole(&b), Some(M::whole(&o)), rng, st)
            }
            _ => {
                // neighbours in one allocation, apart or touching, either first
                let gap = rng.below(3);
                let b = M::fill(rng, n + m + gap);
                let w = M::whole(&b);
                let p = M::places(w);
                let end = *p.last().unwrap();
                let first = M::part(w, 0, p[n]);
                let second = M::part(w, p[n + gap], end);
                if n > 0 && m > 0 && rng.chance(1, 4) {
                    // inputs that overlap and end in different places
                    let longer = M::part(w, p[rng.below(n)], end);
                    st.add("overlapping_inputs", 1);
                    return memory_history::<M, &M::Seg>(first, Some(longer), rng, st);
                }
                if rng.chance(1, 2) {
                    memory_history::<M, &M::Seg>(first, Some(second), rng, st)
                } else {
                    memory_history::<M, &M::Seg>(second, Some(first), rng, st)
                }
            }
        }
    }
    match rng.below(8) {
        0 | 1 => go::<TextMem>(mini, long, rng, st),
        2 => go::<Bytes>(mini, long, rng, st),
        3 => go::<Words>(mini, long, rng, st),
        4 => go::<Boxes>(mini, long, rng, st),
        5 => go::<Odds>(mini, long, rng, st),
        6 => go::<Wides>(mini, long, rng, st),
        _ => go::<Units>(mini, long, rng, st),
    }
}

fn near_powers(rng: &mut Rng, max: usize) -> usize {
    let p = 1usize << *rng.pick(&[8u32, 15, 16, 20, 24, 31, 32, 33, 40, 63]);
    let n = match rng.below(4) {
        0 => p.wrapping_sub(rng.range(1, 9)),
        1 => p.wrapping_add(rng.below(9)),
        2 => p,
        _ => rng.below(max.min(1 << 33) + 1),
    };
    if rng.chance(1, 12) {
        usize::MAX - rng.below(3)
    } else {
        n
    }
}

/// counts what it is given without looking at it
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
struct Units64(u64);
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
struct Units64M(u64);
impl Meter<str> for Units64 {
    type Metrics = Units64M;
    fn advance(self, s: &str) -> Self {
        Units64(self.0 + s.len() as u64)
    }
    fn metrics(&self) -> Units64M {
        Units64M(self.0)
    }
}
impl Metrics<str> for Units64M {
    type Meter = Units64;
}

/// inputs of more than 2^32 units, and zero-sized items by the usize
fn huge_case(measured: bool, rng: &mut Rng, st: &mut Stats) -> Case {
    fn one<Q: RewindSequence + Clone>(
        name: &str,
        mut q: Q,
        total: usize,
        delta: impl Fn(usize) -> Q::Length,
        segment: impl Fn(&Q::Segment) -> (usize, usize),
        metrics: impl Fn(&Q) -> Option<usize>,
        rng: &mut Rng,
        st: &mut Stats,
    ) -> Case {
        let mut at = 0usize;
        let mut anchors: Vec<(Q::Anchor, usize)> = vec![];
        let mut story = format!("{name} of {total} units");
        for _ in 0..rng.range(2, 7) {
            match rng.below(5) {
                0 => anchors.push((q.anchor(), at)),
                1 if !anchors.is_empty() => {
                    let (a, p) = anchors.swap_remove(rng.below(anchors.len()));
                    if p <= at {
                        q = now(q.rewind(a));
                        at = p;
                        story.push_str(&format!(", rewound to {p}"));
                        st.add("huge_rewinds", 1);
                    }
                }
                _ => {
                    let n = near_powers(rng, total);
                    q = now(q.advance(delta(n)).into_future());
                    at = at.saturating_add(n).min(total);
                    story.push_str(&format!(", advanced by {n}"));
                    st.add("huge_advances", 1);
                }
            }
            let mut left = 0usize;
            {
                let mut c = q.clone();
                let mut segs = c.segments();
                while let Some(s) = now(segs.next(delta(0))) {
                    let (a, b) = segment(s);
                    ensure!(a == b, "{story}: the segment has {a} units but its length is {b}");
                    left += a;
                }
            }
            ensure!(left == total - at, "{story}: {left} units remain instead of {}", total - at);
            if let Some(m) = metrics(&q) {
                ensure!(m == at, "{story}: measured {m} units instead of {at}");
            }
        }
        Ok(())
    }
    let text = |s: &str| (s.len(), SequenceSegment::len(s).to_bytes());
    fn items<T>(s: &[T]) -> (usize, usize) {
        (s.len(), SequenceSegment::len(s))
    }
    if let Some(s) = endless() {
        let b = s.as_bytes();
        if measured {
            let q = s.into_measured_with::<Units64M>(Units64(0));
            one("measured text", q, s.len(), BytesDelta::from_bytes, text, |q| Some(q.metrics().0 as usize), rng, st)?;
            let q = b.into_measured::<usize>();
            one("measured bytes", q, b.len(), |n| n, items, |q| Some(q.metrics()), rng, st)?;
        } else {
            one("text", s, s.len(), BytesDelta::from_bytes, text, |_| None, rng, st)?;
            one("bytes", b, b.len(), |n| n, items, |_| None, rng, st)?;
            let n = near_powers(rng, s.len()).min(s.len());
            let d = BytesDelta::from_bytes(n);
            let (x, y) = SequenceSegment::split_at(s, d);
            ensure!(
                d.to_bytes() == n && (x.len(), y.len()) == (n, s.len() - n) && BytesDelta::from_str(x) == d,
                "text of {} units split at {n} gives {} and {}",
                s.len(),
                x.len(),
                y.len()
            );
            let (x, y) = SequenceSegment::split_at(b, n);
            ensure!((x.len(), y.len()) == (n, b.len() - n), "bytes split at {n} give {} and {}", x.len(), y.len());
        }
        st.add("huge_inputs", 1);
    }
    let n = *rng.pick(&[usize::MAX, usize::MAX - 1, 1 << 33, (1 << 63) + 5]);
    let units = vec![(); n];
    let u = units.as_slice();
    if measured {
        one("measured zero-sized items", u.into_measured::<usize>(), n, |n| n, items, |q| Some(q.metrics()), rng, st)?;
    } else {
        one("zero-sized items", u, n, |n| n, items, |_| None, rng, st)?;
    }
    st.distinct(("huge", n, rng.next()));
    Ok(())
}

fn main() {
    let a = Args::parse();
    let mini = a.mini;
    let mut r = Report::new(&a);
    let deep = a.scale > 4.0;
    match a.prop.as_str() {
        "C23" => {
            let next = AtomicUsize::new(0);
            let upto = if deep { 7 } else { 6 };
            r.part("words", upto as u64 + 1, |_, s| {
                words_case(upto - next.fetch_add(1, Ordering::Relaxed).min(upto), s)
            });
            let next = AtomicUsize::new(0);
            r.part("sweep", if mini { 0 } else { 1088 }, |g, s| {
                meter_sweep(next.fetch_add(1, Ordering::Relaxed) as u32 % 1088, g, s)
            });
            r.part("random", a.cases(60_000, 40), |g, s| meter_case(mini, g, s));
            r.part("long", a.cases(24, 0), |g, s| long_meter_case(g, s));
            if !mini {
                r.part("huge", a.cases(24, 0), huge_meter_case);
            }
            r.finish(60_000, &["cuts_inside_crlf", "long_texts", "huge_texts", "meters_started_elsewhere", "positions_checked", "same_line_and_column_apart", "same_count_apart"]);
        }
        "C24" => {
            let next = AtomicUsize::new(0);
            let upto = if deep { 9 } else { 7 };
            r.part("words", upto as u64 + 1, |_, s| {
                recogniser_words(upto - next.fetch_add(1, Ordering::Relaxed).min(upto), s)
            });
            let next = AtomicUsize::new(0);
            r.part("characters", 8, |_, s| {
                recogniser_all_chars(next.fetch_add(1, Ordering::Relaxed) % 8, 8, s)
            });
            r.part("random", a.cases(100_000, 40), |g, s| recogniser_random(g, s));
            r.finish(60_000, &["characters_fed", "all_characters"]);
        }
        "C25" => {
            r.part("histories", a.cases(800_000, 60), |g, s| measured_case(mini, g, s));
            r.part("parses", a.cases(60_000, 4), |g, s| measured_parse(g, s));
            if !mini {
                r.part("huge", a.cases(2_000, 0), |g, s| huge_case(true, g, s));
            }
            r.finish(
                60_000,
                &["huge_advances", "metrics_compared", "advances_past_the_end", "rewinds", "measured_parses_succeeded", "measured_parses_failed"],
            );
        }
        "C26" => {
            r.part("histories", a.cases(1_500_000, 120), |g, s| memory_case(mini, false, g, s));
            r.part("long", a.cases(120, 0), |g, s| memory_case(mini, true, g, s));
            if !mini {
                r.part("huge", a.cases(2_000, 0), |g, s| huge_case(false, g, s));
            }
            r.finish(
                50_000,
                &["huge_advances", "peeks", "advances_to_or_past_the_end", "rewinds", "rewinds_from_the_end", "foreign_anchors_refused", "foreign_anchors_of_adjacent_inputs", "overlapping_inputs", "long_inputs"],
            );
        }
        p => panic!("unknown property {p}"),
    }
}
