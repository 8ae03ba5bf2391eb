//! C17 (normalisation and iteration of sequence sets) and C18 (constructors).
use std::num::NonZeroU32;

use imap_types::sequence::{SeqOrUid, Sequence, SequenceSet};

use crate::{Prop, ctx::Ctx, rng::Rng};

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C17", fixed: Some(c17_fixed), case: c17, quick: 400_000, thorough: 6_000_000 },
        Prop { id: "C18", fixed: Some(c18_fixed), case: c18, quick: 600_000, thorough: 8_000_000 },
    ]
}

/// The reference model of one end: `None` is `*`.
type End = Option<u32>;
type El = (End, End);

fn ends(s: &Sequence) -> El {
    let e = |s: &SeqOrUid| match s {
        SeqOrUid::Value(v) => Some(v.get()),
        SeqOrUid::Asterisk => None,
    };
    match s {
        Sequence::Single(a) => (e(a), e(a)),
        Sequence::Range(a, b) => (e(a), e(b)),
    }
}
fn els(s: &SequenceSet) -> Vec<El> {
    s.0.as_ref().iter().map(ends).collect()
}
fn build(e: &El, single: bool) -> Sequence {
    let f = |e: End| match e {
        Some(v) => SeqOrUid::Value(NonZeroU32::new(v).unwrap()),
        None => SeqOrUid::Asterisk,
    };
    if single { Sequence::Single(f(e.0)) } else { Sequence::Range(f(e.0), f(e.1)) }
}
/// What an element selects: an interval.
fn interval(e: &El, largest: u32) -> (u64, u64) {
    let (a, b) = (e.0.unwrap_or(largest) as u64, e.1.unwrap_or(largest) as u64);
    (a.min(b), a.max(b))
}
/// Union of the elements' intervals, merged, sorted; restricted to 1..=limit.
fn union(set: &[El], largest: u32, limit: u64) -> Vec<(u64, u64)> {
    let mut v: Vec<(u64, u64)> = set
        .iter()
        .map(|e| interval(e, largest))
        .filter(|i| i.0 <= limit)
        .map(|i| (i.0, i.1.min(limit)))
        .collect();
    v.sort_unstable();
    let mut out: Vec<(u64, u64)> = Vec::new();
    for i in v {
        match out.last_mut() {
            Some(l) if i.0 <= l.1 + 1 => l.1 = l.1.max(i.1),
            _ => out.push(i),
        }
    }
    out
}
fn text(set: &[El]) -> String {
    let e = |e: End| e.map(|v| v.to_string()).unwrap_or("*".into());
    set.iter()
        .map(|s| if s.0 == s.1 { e(s.0) } else { format!("{}:{}", e(s.0), e(s.1)) })
        .collect::<Vec<_>>()
        .join(",")
}

fn check_set(ctx: &mut Ctx, seqs: Vec<Sequence>, largests: &[u32]) {
    let Ok(set) = SequenceSet::try_from(seqs.clone()) else {
        ctx.fail("set-refused", "non-empty list of sequences refused", b"");
        return;
    };
    let orig: Vec<El> = seqs.iter().map(ends).collect();
    let name = text(&orig);
    let key = format!("{seqs:?}");
    ctx.eval(key.as_bytes());
    ctx.current = name.clone().into_bytes();

    let mut norm = set.clone();
    norm.normalize();
    let n = els(&norm);
    if n.len() < orig.len() {
        ctx.c("sets-with-merged-elements");
        if n.len() > 40 {
            ctx.c("large-sets-with-merged-elements");
        }
    }
    let pos = |e: End| e.map(|v| v as u64).unwrap_or(1 << 40);
    let mut last: Option<u64> = None;
    for (el, seq) in n.iter().zip(norm.0.as_ref()) {
        let (a, b) = (pos(el.0), pos(el.1));
        let canonical = match seq {
            Sequence::Single(_) => true,
            Sequence::Range(..) => a < b,
        };
        if !ctx.check(canonical, "range-not-ascending", name.as_bytes(), || format!("normalised to {}", text(&n))) {
            return;
        }
        if let Some(l) = last {
            if !ctx.check(a > l + 1, "not-sorted-or-not-merged", name.as_bytes(), || format!("normalised to {}", text(&n))) {
                return;
            }
        }
        last = Some(b);
    }
    let mut twice = norm.clone();
    twice.normalize();
    ctx.check(twice == norm, "normalise-not-idempotent", name.as_bytes(), || format!("{} then {}", text(&n), text(&els(&twice))));

    for &l in largests {
        ctx.c("highest-numbers");
        let (want, got) = (union(&orig, l, l as u64), union(&n, l, l as u64));
        if !ctx.check(want == got, "normalise-changes-selection", name.as_bytes(), || {
            format!("highest {l}: normalised to {}; selected {got:?}, was {want:?}", text(&n))
        }) {
            return;
        }
        // Iteration: compare number by number, up to a bound.
        let bound: usize = if seqs.len() > 60 { 6000 } else { 400 };
        let nz = NonZeroU32::new(l).unwrap();
        let all = union(&orig, l, u64::MAX);
        let mut want: Vec<u32> = Vec::new();
        'o: for (a, b) in &all {
            for x in *a..=*b {
                if want.len() > bound {
                    break 'o;
                }
                want.push(x as u32);
            }
        }
        let got: Vec<u32> = set.iter(nz).map(|v| v.get()).take(bound + 1).collect();
        if want.len() <= bound {
            ctx.c("iterated-to-the-end");
        }
        if !ctx.check(got == want, "iteration-differs", name.as_bytes(), || {
            format!("highest {l}: got {got:?}\nwant {want:?}")
        }) {
            return;
        }
        let mut want: Vec<u32> = Vec::new();
        'p: for e in &orig {
            let (a, b) = (e.0.unwrap_or(l) as u64, e.1.unwrap_or(l) as u64);
            let n = a.abs_diff(b) + 1;
            for i in 0..n {
                if want.len() > bound {
                    break 'p;
                }
                want.push(if a <= b { a + i } else { a - i } as u32);
            }
        }
        let got: Vec<u32> = set.iter_naive(nz).map(|v| v.get()).take(bound + 1).collect();
        if !ctx.check(got == want, "naive-iteration-differs", name.as_bytes(), || {
            format!("highest {l}: got {got:?}\nwant {want:?}")
        }) {
            return;
        }
        // The normalised set iterates like the original one over existing messages.
        let lim = |v: Vec<u32>| v.into_iter().filter(|x| *x <= l).collect::<Vec<_>>();
        let (a, b) = (
            lim(set.iter(nz).map(|v| v.get()).take(bound).collect()),
            lim(norm.iter(nz).map(|v| v.get()).take(bound).collect()),
        );
        let m = a.len().min(b.len()).min(bound / 2);
        ctx.check(a[..m] == b[..m], "normalised-iteration-differs", name.as_bytes(), || format!("highest {l}: {a:?} {b:?}"));
    }
}

fn c17_fixed(ctx: &mut Ctx) {
    // All sets of one to three elements over 1..=4 and *, all highest numbers up to 6.
    let vals: Vec<End> = vec![Some(1), Some(2), Some(3), Some(4), None];
    let mut pool = Vec::new();
    for a in &vals {
        pool.push(build(&(*a, *a), true));
        for b in &vals {
            pool.push(build(&(*a, *b), false));
        }
    }
    let largest = [1, 2, 3, 4, 5, 6];
    for a in &pool {
        check_set(ctx, vec![a.clone()], &largest);
        for b in &pool {
            check_set(ctx, vec![a.clone(), b.clone()], &largest);
            for c in &pool {
                check_set(ctx, vec![a.clone(), b.clone(), c.clone()], &[1, 3, 5]);
            }
        }
    }
    // The same at the upper end of the number range.
    let m = u32::MAX;
    let vals: Vec<End> = vec![Some(m - 3), Some(m - 2), Some(m - 1), Some(m), None, Some(1)];
    let mut pool = Vec::new();
    for a in &vals {
        pool.push(build(&(*a, *a), true));
        for b in &vals {
            pool.push(build(&(*a, *b), false));
        }
    }
    for a in &pool {
        for b in &pool {
            check_set(ctx, vec![a.clone(), b.clone()], &[m, m - 1, m - 2, 1]);
        }
    }
    ctx.c("enumerated");
}

fn c17(ctx: &mut Ctx, seed: u64) {
    let mut r = Rng::new(seed);
    let style = r.below(5);
    let n = match r.below(8) {
        0 => 1,
        1..=4 => r.range(1, 6),
        5 | 6 => r.range(2, 30),
        _ => r.range(20, 400),
    };
    // Sparse sets: many elements that stay apart, with a few that touch or overlap.
    let sparse = r.chance(1, 12);
    let most = if r.chance(1, 8) { 1500 } else { 150 };
    let n = if sparse { r.range(8, most) } else { n };
    let span = if sparse { n as u32 * *r.pick(&[2u32, 4, 9, 40]) } else { *r.pick(&[3u32, 10, 40, 200, 5000]) };
    let base = match style {
        0 | 1 => 1,
        2 => u32::MAX - span,
        3 => *r.pick(&[0xffu32, 0xffff, 0x7fff_ffff, 0x8000_0000, 1 << 16, 1 << 24]) - span.min(0xff) / 2,
        _ => 1 + r.next() as u32 / 2,
    }
    .max(1);
    let star = !sparse && r.chance(1, 2);
    let wide = !sparse && r.chance(1, 10);
    let val = |r: &mut Rng| -> End {
        if star && r.chance(1, 6) {
            None
        } else if wide && r.chance(1, 3) {
            Some(*r.pick(&[1, 2, u32::MAX, u32::MAX - 1, 0x7fff_ffff, 0x8000_0000]))
        } else {
            Some(base.saturating_add(r.below(span as usize + 1) as u32))
        }
    };
    let mut seqs = Vec::new();
    let mut edges = Vec::new();
    for _ in 0..n {
        let single = r.chance(2, 5);
        let a = val(&mut r);
        let b = if sparse || r.chance(1, 2) {
            a.map(|a| {
                let d = r.below(6) as u32;
                if r.bool() { a.saturating_add(d) } else { a.saturating_sub(d).max(1) }
            })
        } else {
            val(&mut r)
        };
        for v in [a, b].into_iter().flatten() {
            edges.push(v);
        }
        seqs.push(build(&(a, b), single));
    }
    if sparse && r.bool() {
        let at = r.below(seqs.len() + 1);
        let a = if r.bool() { None } else { Some(base.saturating_add(r.below(span as usize) as u32)) };
        seqs.insert(at, build(&(a, None), a.is_none()));
    }
    let mut largest = vec![1, u32::MAX];
    for _ in 0..4 {
        let l = if edges.is_empty() || r.chance(1, 3) {
            base.saturating_add(r.below(span as usize + 2) as u32)
        } else {
            let e = *r.pick(&edges);
            match r.below(3) {
                0 => e,
                1 => e.saturating_add(1),
                _ => (e - 1).max(1),
            }
        };
        largest.push(l);
    }
    check_set(ctx, seqs, &largest);
}

// ---------------------------------------------------------------------------------------------

/// Reference reading of the text forms.
fn model_end(s: &str) -> Option<End> {
    if s == "*" {
        return Some(None);
    }
    let b = s.as_bytes();
    if b.is_empty() || b[0] == b'0' || !b.iter().all(|c| c.is_ascii_digit()) {
        return None;
    }
    let mut n: u64 = 0;
    for c in b {
        n = n * 10 + (c - b'0') as u64;
        if n > u32::MAX as u64 {
            return None;
        }
    }
    Some(Some(n as u32))
}
fn model_seq(s: &str) -> Option<El> {
    match s.split_once(':') {
        None => model_end(s).map(|e| (e, e)),
        Some((a, b)) => Some((model_end(a)?, model_end(b)?)),
    }
}
fn model_set(s: &str) -> Option<Vec<El>> {
    s.split(',').map(model_seq).collect()
}

fn check_text(ctx: &mut Ctx, s: &str) {
    ctx.eval(s.as_bytes());
    ctx.current = s.as_bytes().to_vec();
    let (we, wq, ws) = (model_end(s), model_seq(s), model_set(s));
    let e = |v: SeqOrUid| match v {
        SeqOrUid::Value(v) => Some(v.get()),
        SeqOrUid::Asterisk => None,
    };
    ctx.c(if ws.is_some() { "texts-legal" } else { "texts-illegal" });
    let got = SeqOrUid::try_from(s).ok().map(e);
    ctx.same(&got, &we, "number-from-text", s.as_bytes());
    ctx.same(&s.parse::<SeqOrUid>().ok().map(e), &we, "number-parse", s.as_bytes());
    ctx.same(&Sequence::try_from(s).ok().map(|q| ends(&q)), &wq, "sequence-from-text", s.as_bytes());
    ctx.same(&s.parse::<Sequence>().ok().map(|q| ends(&q)), &wq, "sequence-parse", s.as_bytes());
    ctx.same(&SequenceSet::try_from(s).ok().map(|q| els(&q)), &ws, "set-from-text", s.as_bytes());
    ctx.same(&s.parse::<SequenceSet>().ok().map(|q| els(&q)), &ws, "set-parse", s.as_bytes());
}

/// `lo..=hi` as the argument denotes; `None` for an argument that denotes nothing legal.
fn check_range(ctx: &mut Ctx, what: &str, got: Option<El>, got_set: Option<Vec<El>>, want: Option<(u64, u64)>) {
    // hi == 1 << 40 is the open end.
    ctx.eval(what.as_bytes());
    ctx.current = what.as_bytes().to_vec();
    let pos = |e: End| e.map(|v| v as u64).unwrap_or(1 << 40);
    let as_pair = |e: &El| {
        let (a, b) = (pos(e.0), pos(e.1));
        (a.min(b), a.max(b))
    };
    let g = got.as_ref().map(as_pair);
    ctx.check(g == want, "range-denotes", what.as_bytes(), || format!("got {got:?}, want {want:?}"));
    let g = got_set.as_ref().map(|v| if v.len() == 1 { as_pair(&v[0]) } else { (0, 0) });
    ctx.check(g == want, "range-set-denotes", what.as_bytes(), || format!("got {got_set:?}, want {want:?}"));
}

macro_rules! ints {
    ($ctx:expr, $pick:expr, $($t:ty),*) => {$(
        {
            let ctx: &mut Ctx = $ctx;
            let vals: Vec<$t> = ($pick)(<$t>::MIN as i128, <$t>::MAX as i128).into_iter().map(|v: i128| v as $t).collect();
            let ok = |v: $t| { let v = v as i128; v >= 1 && v <= u32::MAX as i128 };
            for &a in &vals {
                let what = format!("{}{}", a, stringify!($t));
                ctx.eval(what.as_bytes());
                let want = if ok(a) { Some((Some(a as u32), Some(a as u32))) } else { None };
                ctx.same(&SeqOrUid::try_from(a).ok().map(|v| ends(&Sequence::Single(v))), &want, "number-from-int", what.as_bytes());
                ctx.same(&Sequence::try_from(a).ok().map(|s| ends(&s)), &want, "sequence-from-int", what.as_bytes());
                ctx.same(&SequenceSet::try_from(a).ok().map(|s| els(&s)), &want.map(|w| vec![w]), "set-from-int", what.as_bytes());
                ctx.c("integers");
            }
            // slices
            let want = if vals.is_empty() || !vals.iter().all(|v| ok(*v)) { None } else { Some(vals.iter().map(|v| (Some(*v as u32), Some(*v as u32))).collect::<Vec<_>>()) };
            let what = format!("{:?}{}", vals, stringify!($t));
            ctx.same(&SequenceSet::try_from(&vals[..]).ok().map(|s| els(&s)), &want, "set-from-slice", what.as_bytes());
            let good: Vec<$t> = vals.iter().copied().filter(|v| ok(*v)).collect();
            let want = if good.is_empty() { None } else { Some(good.iter().map(|v| (Some(*v as u32), Some(*v as u32))).collect::<Vec<_>>()) };
            ctx.same(&SequenceSet::try_from(&good[..]).ok().map(|s| els(&s)), &want, "set-from-slice", what.as_bytes());
            ctx.c("slices");
            // ranges
            const OPEN: u64 = 1 << 40;
            for &a in vals.iter().take(6) {
                let n = stringify!($t);
                let go = |ok: bool, lo: i128, hi: i128| if ok && lo <= hi { Some((lo as u64, hi as u64)) } else { None };
                let fits = |v: i128| v >= 1 && v <= u32::MAX as i128;
                check_range(ctx, &format!("{a}..{n}"), Sequence::try_from(a..).ok().map(|s| ends(&s)), SequenceSet::try_from(a..).ok().map(|s| els(&s)),
                    if ok(a) { Some((a as u64, OPEN)) } else { None });
                let e = a as i128 - 1;
                check_range(ctx, &format!("..{a}{n}"), Sequence::try_from(..a).ok().map(|s| ends(&s)), SequenceSet::try_from(..a).ok().map(|s| els(&s)),
                    go(fits(e), 1, e));
                check_range(ctx, &format!("..={a}{n}"), Sequence::try_from(..=a).ok().map(|s| ends(&s)), SequenceSet::try_from(..=a).ok().map(|s| els(&s)),
                    go(ok(a), 1, a as i128));
                for &b in vals.iter().take(6) {
                    let e = b as i128 - 1;
                    check_range(ctx, &format!("{a}..{b}{n}"), Sequence::try_from(a..b).ok().map(|s| ends(&s)), SequenceSet::try_from(a..b).ok().map(|s| els(&s)),
                        go(ok(a) && fits(e), a as i128, e));
                    // A reversed inclusive range is empty in Rust but names a:b in IMAP: not judged.
                    if a <= b {
                        check_range(ctx, &format!("{a}..={b}{n}"), Sequence::try_from(a..=b).ok().map(|s| ends(&s)), SequenceSet::try_from(a..=b).ok().map(|s| els(&s)),
                            go(ok(a) && ok(b), a as i128, b as i128));
                    }
                }
                ctx.c("ranges");
            }
        }
    )*};
}

fn nz(ctx: &mut Ctx, vals: &[u32]) {
    const OPEN: u64 = 1 << 40;
    let nzs: Vec<NonZeroU32> = vals.iter().map(|v| NonZeroU32::new(*v).unwrap()).collect();
    let want: Vec<El> = vals.iter().map(|v| (Some(*v), Some(*v))).collect();
    let what = format!("{vals:?}nz");
    let w = if vals.is_empty() { None } else { Some(want.clone()) };
    ctx.same(&SequenceSet::try_from(&nzs[..]).ok().map(|s| els(&s)), &w, "set-from-nz-slice", what.as_bytes());
    ctx.same(&SequenceSet::try_from(nzs.clone()).ok().map(|s| els(&s)), &w, "set-from-nz-vec", what.as_bytes());
    let seqs: Vec<Sequence> = nzs.iter().map(|v| Sequence::from(*v)).collect();
    ctx.same(&SequenceSet::try_from(seqs).ok().map(|s| els(&s)), &w, "set-from-sequences", what.as_bytes());
    for (a, v) in nzs.iter().copied().zip(vals.iter().copied()).take(5) {
        let el = (Some(v), Some(v));
        ctx.same(&ends(&Sequence::from(a)), &el, "sequence-from-nz", what.as_bytes());
        ctx.same(&els(&SequenceSet::from(a)), &vec![el], "set-from-nz", what.as_bytes());
        ctx.same(&els(&SequenceSet::from(SeqOrUid::from(a))), &vec![el], "set-from-nz", what.as_bytes());
        ctx.same(&els(&SequenceSet::from(Sequence::from(a))), &vec![el], "set-from-nz", what.as_bytes());
        let p = v as u64;
        check_range(ctx, &format!("{v}..nz"), Some(ends(&Sequence::from(a..))), Some(els(&SequenceSet::from(a..))), Some((p, OPEN)));
        check_range(ctx, &format!("..={v}nz"), Some(ends(&Sequence::from(..=a))), Some(els(&SequenceSet::from(..=a))), Some((1, p)));
        check_range(
            ctx,
            &format!("..{v}nz"),
            Sequence::try_from(..a).ok().map(|s| ends(&s)),
            SequenceSet::try_from(..a).ok().map(|s| els(&s)),
            if v > 1 { Some((1, p - 1)) } else { None },
        );
        for (b, w) in nzs.iter().copied().zip(vals.iter().copied()).take(5) {
            let q = w as u64;
            check_range(
                ctx,
                &format!("{v}..{w}nz"),
                Sequence::try_from(a..b).ok().map(|s| ends(&s)),
                SequenceSet::try_from(a..b).ok().map(|s| els(&s)),
                if v < w { Some((p, q - 1)) } else { None },
            );
            if v <= w {
                check_range(ctx, &format!("{v}..={w}nz"), Some(ends(&Sequence::from(a..=b))), Some(els(&SequenceSet::from(a..=b))), Some((p, q)));
            }
        }
        ctx.c("nonzero-ranges");
    }
}

fn c18_fixed(ctx: &mut Ctx) {
    // All texts up to five characters over the interesting alphabet.
    const A: &[u8] = b"0123*:,+- 9";
    let mut buf = Vec::new();
    fn rec(ctx: &mut Ctx, buf: &mut Vec<u8>, left: usize) {
        let s = String::from_utf8(buf.clone()).unwrap();
        check_text(ctx, &s);
        if left > 0 {
            for c in A {
                buf.push(*c);
                rec(ctx, buf, left - 1);
                buf.pop();
            }
        }
    }
    rec(ctx, &mut buf, 5);
    // Every byte next to a number.
    for c in 0..=255u8 {
        for s in [format!("{}", c as char), format!("1{}", c as char), format!("{}1", c as char), format!("1{}2", c as char), format!("*{}", c as char), format!("1:{}2", c as char)] {
            check_text(ctx, &s);
        }
    }
    ctx.same(&ends(&Sequence::from(..)), &(Some(1), None), "full-range", b"..");
    ctx.same(&els(&SequenceSet::from(..)), &vec![(Some(1), None)], "full-range", b"..");
    ctx.check(SequenceSet::try_from(Vec::<Sequence>::new()).is_err(), "empty-vec", b"", || "accepted".into());
    ctx.check(SequenceSet::try_from(Vec::<NonZeroU32>::new()).is_err(), "empty-vec", b"", || "accepted".into());
    // Every eight-bit integer; edges of the others.
    for k in -128..=255i128 {
        let one = |lo: i128, hi: i128| -> Vec<i128> { if k >= lo && k <= hi { vec![k] } else { vec![] } };
        ints!(ctx, one, i8, u8, i16, u16, i32, u32, i64, u64, isize, usize);
    }
    let edges = |lo: i128, hi: i128| -> Vec<i128> {
        let mut v = vec![lo, lo + 1, hi, hi - 1, 0, 1, 2, -1];
        for e in [7, 8, 15, 16, 31, 32, 63] {
            for d in -2..=2 {
                v.push((1i128 << e) + d);
                v.push(-(1i128 << e) + d);
            }
        }
        v.retain(|x| *x >= lo && *x <= hi);
        v
    };
    for rot in 0..40 {
        let rotated = |lo: i128, hi: i128| {
            let mut v = edges(lo, hi);
            let n = v.len();
            v.rotate_left(rot % n);
            v
        };
        ints!(ctx, rotated, i8, u8, i16, u16, i32, u32, i64, u64, isize, usize);
    }
    ctx.c("enumerated");
}

fn c18(ctx: &mut Ctx, seed: u64) {
    let mut r = Rng::new(seed);
    match r.below(6) {
        0 => {
            let long = r.chance(1, 400);
            let n = if long { r.range(500, 5000) } else { r.range(0, 8) };
            if long {
                ctx.c("long-slices");
            }
            let s = r.next();
            let pick = move |lo: i128, hi: i128| -> Vec<i128> {
                let mut r = Rng::new(s);
                let mut v: Vec<i128> = Vec::new();
                for _ in 0..n {
                    if let (Some(x), true) = (v.last().copied(), r.chance(1, 6)) {
                        v.push(x);
                    }
                    let bits = r.range(1, 64);
                    let x = (r.next() >> (64 - bits)) as i128;
                    let x = if r.chance(1, 8) { -x } else { x };
                    if x >= lo && x <= hi {
                        v.push(x);
                    }
                }
                if r.chance(1, 8) && lo <= 0 {
                    v.push(0);
                }
                v
            };
            ints!(ctx, pick, i8, u8, i16, u16, i32, u32, i64, u64, isize, usize);
        }
        1 => {
            let long = r.chance(1, 400);
            let n = if long { r.range(500, 5000) } else { r.range(0, 6) };
            if long {
                ctx.c("long-slices");
            }
            let mut v: Vec<u32> = Vec::new();
            for _ in 0..n {
                if let (Some(x), true) = (v.last().copied(), r.chance(1, 6)) {
                    v.push(x);
                }
                let bits = r.range(1, 32);
                v.push((r.next() as u32 >> (32 - bits)).clamp(1, u32::MAX - 1));
            }
            if r.chance(1, 4) {
                v.push(u32::MAX - 1);
            }
            nz(ctx, &v);
        }
        _ => {
            // Text: mostly well formed, then perhaps one edit.
            let n = match r.below(10) {
                _ if r.chance(1, 500) => r.range(300, 5000),
                0..=5 => r.range(1, 3),
                6..=8 => r.range(3, 12),
                _ => r.range(12, 300),
            };
            let mut s = String::new();
            let end = |r: &mut Rng, s: &mut String| {
                if r.chance(1, 5) {
                    s.push('*');
                } else if r.chance(1, 6) {
                    s.push_str(*r.pick(&["4294967295", "4294967296", "4294967294", "10000000000", "18446744073709551617", "2147483648", "65536", "1", "10", "100"]));
                } else {
                    let bits = r.range(1, 33);
                    s.push_str(&(r.next() >> (64 - bits)).max(1).to_string());
                }
            };
            for i in 0..n {
                if i > 0 {
                    s.push(',');
                }
                end(&mut r, &mut s);
                if r.chance(1, 3) {
                    s.push(':');
                    end(&mut r, &mut s);
                }
            }
            if r.chance(1, 2) {
                let mut cs: Vec<char> = s.chars().collect();
                let at = r.below(cs.len() + 1);
                let c = *r.pick(&['0', '*', ':', ',', '+', '-', ' ', '\t', '\n', '\r', '\0', '_', '.', 'a', '٣', '1', '９', ';', '%']);
                match r.below(3) {
                    0 => cs.insert(at, c),
                    1 if at < cs.len() => cs[at] = c,
                    _ if at < cs.len() => {
                        cs.remove(at);
                    }
                    _ => cs.push(c),
                }
                s = cs.into_iter().collect();
            }
            check_text(ctx, &s);
        }
    }
}
