//! C21: how much work and memory operations take as their input grows. Only in
//! builds where every edge taken in the library calls a counter (feature
//! `count`), so that the measure is the same on every run and every machine.

use super::common::*;
use super::Env;
use crate::alloc;
use crate::engine::*;
use crate::gen;
use crate::model;
use crate::reflex::TT;
use proc_macro2::{Delimiter, Group, Ident, Literal, Span, TokenStream, TokenTree};
use std::ffi::CString;
use std::hint::black_box;
use std::str::FromStr;

static mut EDGES: u64 = 0;

#[no_mangle]
extern "C" fn __sanitizer_cov_trace_pc_guard(_: *mut u32) {
    unsafe { EDGES = EDGES.wrapping_add(1) }
}

#[no_mangle]
extern "C" fn __sanitizer_cov_trace_pc_guard_init(_: *mut u32, _: *mut u32) {}

/// Edges taken, bytes asked for.
#[derive(Clone, Copy, Debug, Default)]
struct Cost(u64, u64);

fn now() -> Cost {
    Cost(unsafe { EDGES }, alloc::requested())
}

/// Adds what `f` costs.
fn cost<T>(to: &mut Cost, f: impl FnOnce() -> T) -> T {
    let a = now();
    let r = f();
    let b = now();
    *to = Cost(to.0 + b.0 - a.0, to.1 + b.1 - a.1);
    r
}

/// Named costs of one run.
type Costs = Vec<(&'static str, Cost)>;

fn named<T>(v: &mut Costs, name: &'static str, f: impl FnOnce() -> T) -> T {
    let mut c = Cost::default();
    let r = cost(&mut c, f);
    v.push((name, c));
    r
}

/// Runs the same work at four sizes, each twice the one before. Work in
/// proportion doubles each time; a violation is work that more than triples
/// again and again.
fn growth(n: usize, cx: &mut Cx, what: &str, run: impl Fn(usize) -> Option<Costs>) -> R {
    let mut all = Vec::new();
    for k in 0..4 {
        match run(n << k) {
            Some(c) => all.push(c),
            None => return Ok(()),
        }
    }
    for name in all[3].iter().map(|c| c.0) {
        let at = |k: usize| all[k].iter().find(|c| c.0 == name).map(|c| c.1);
        let (Some(a), Some(b), Some(c), Some(d)) = (at(0), at(1), at(2), at(3)) else {
            continue;
        };
        cx.extra += 1;
        if d.0 > 50_000 {
            cx.nontrivial = true;
        }
        let fast = |b: u64, c: u64, d: u64, least: u64| d > least && 5 * d > 13 * c && 5 * c > 13 * b;
        for (unit, a, b, c, d, least) in [("steps", a.0, b.0, c.0, d.0, 50_000), ("bytes", a.1, b.1, c.1, d.1, 1_000_000)] {
            if fast(b, c, d, least) {
                return Err(format!(
                    "{name}: {a}, {b}, {c}, {d} {unit} for sizes {n}, {}, {}, {}\n  {what}",
                    n * 2,
                    n * 4,
                    n * 8
                ));
            }
        }
    }
    Ok(())
}

fn depth(ts: &TokenStream, limit: usize) -> usize {
    let mut max = 0;
    for t in ts.clone() {
        if let TokenTree::Group(g) = t {
            if limit == 0 {
                return 1;
            }
            max = max.max(1 + depth(&g.stream(), limit - 1));
        }
    }
    max
}

fn walk(ts: TokenStream, f: &mut impl FnMut(&TokenTree)) {
    for t in ts {
        f(&t);
        if let TokenTree::Group(g) = t {
            walk(g.stream(), f);
        }
    }
}

/// Everything that is done with a stream.
/// `places`: the order in which spans are asked about, for parsed ones.
fn used(v: &mut Costs, ts: TokenStream, places: Option<usize>) {
    let flat = depth(&ts, 40) < 40;
    if flat {
        named(v, "printing", || black_box(ts.to_string()));
        named(v, "debug-printing", || black_box(format!("{ts:?}")));
        named(v, "walking", || walk(ts.clone(), &mut |t| drop(black_box(t.clone()))));
        #[cfg(feature = "spans")]
        if let Some(order) = places {
            let mut spans = Vec::new();
            walk(ts.clone(), &mut |t| spans.push((t.span(), matches!(t, TokenTree::Group(_)))));
            match order {
                0 => {}
                1 => spans.reverse(),
                _ => {
                    // from both ends
                    let back: Vec<_> = spans.iter().rev().copied().collect();
                    spans = spans.into_iter().zip(back).flat_map(|(a, b)| [a, b]).collect();
                }
            }
            named(v, "asking every token for its place", || {
                for (s, group) in spans {
                    black_box((s.start(), s.end(), s.byte_range(), s.file(), s.join(s)));
                    if !group {
                        black_box(s.source_text());
                    }
                }
            });
        }
    }
    let _ = places;
    named(v, "iterating", || {
        let mut i = ts.clone().into_iter();
        while let Some(t) = i.next() {
            black_box((t, i.size_hint()));
        }
    });
    let shared = ts.clone();
    named(v, "copying a shared stream", || {
        let mut ts = shared;
        ts.extend([TokenTree::Ident(Ident::new("a", Span::call_site()))]);
        black_box(ts);
    });
    named(v, "dropping", || drop(ts));
}

fn piece(s: &mut Src) -> String {
    let mut o = String::new();
    for _ in 0..s.range(1, 2) {
        o.push_str(&match s.below(12) {
            0 => gen::tokens(s),
            1 => gen::sloppy(s),
            2 => gen::literal(s, false),
            3 => gen::doc_comment(s),
            4 => gen::trivia(s),
            5 => gen::frags(s),
            6 => gen::ident_text(s),
            7 => gen::hot(s),
            8 => gen::mutated(s),
            _ => ["a", " ", "é", "0", "_", "\n", "日", "#", "x ", "*", "/", "=", "\\n", "(", ")", "{}", "()", "'", "\"", "'a ", "1.", "\r\n", "+", "- ", "r#", "\\", "\"#", "/*", "*/"][s.below(29)].to_owned(),
        });
        if s.chance(1, 2) {
            o.push_str([" ", "\n", "", "\r\n", ";"][s.below(5)]);
        }
        while o.len() > 400 {
            let half = o.chars().count() / 2;
            o = o.chars().take(half).collect();
        }
    }
    o
}

/// A text that repeats a piece.
fn check_text(s: &mut Src, cx: &mut Cx) -> R {
    const AROUND: &[(&str, &str)] = &[("", ""), ("\"", "\""), ("/*", "*/"), ("/**", "*/"), ("//", "\n"), ("///", "\n"), ("(", ")"), ("r#\"", "\"#"), ("b\"", "\""), ("c\"", "\""), ("a", ""), ("'", "'"), ("{ a", "b }"), ("\u{feff}", ""), ("[", ""), ("", "\""), ("", ")"), ("", "/*"), ("1", "")];
    let (pre, post) = if s.chance(1, 2) { ("", "") } else { *s.pick(AROUND) };
    let p = piece(s);
    if p.is_empty() {
        return Ok(());
    }
    let p = if s.chance(1, 6) { p.repeat(s.range(1, 4)) + "\n" } else { p };
    let n = s.range(1 << 9, 1 << 12).div_ceil(p.chars().count());
    let order = s.below(3);
    if cx.want_sample {
        cx.sample = Some(format!("{pre:?} {p:?}* {post:?} up to {} times", n * 8));
    }
    let what = format!("{pre:?} {p:?} times size {post:?}");
    growth(n, cx, &what, |n| {
        let t = format!("{pre}{}{post}", p.repeat(n));
        let mut v = Costs::new();
        match named(&mut v, "parsing", || TokenStream::from_str(&t)) {
            Ok(ts) => used(&mut v, ts, Some(order)),
            Err(e) => {
                v[0].0 = "rejecting";
                named(&mut v, "an error", || {
                    #[cfg(feature = "spans")]
                    black_box((e.span().start(), e.span().byte_range()));
                    black_box((e.to_string(), format!("{e:?}")));
                });
            }
        }
        match named(&mut v, "parsing a literal", || Literal::from_str(&t)) {
            Ok(l) => {
                named(&mut v, "using a literal", || literal(&l));
            }
            Err(_) => v.last_mut().unwrap().0 = "rejecting a literal",
        }
        #[cfg(feature = "spans")]
        proc_macro2::extra::invalidate_current_thread_spans();
        Some(v)
    })
}

fn literal(l: &Literal) {
    black_box((l.to_string(), format!("{l:?}"), l.clone()));
    #[cfg(feature = "spans")]
    black_box((l.span().source_text(), l.subspan(1..)));
    #[cfg(feature = "exempt")]
    black_box((l.str_value(), l.byte_str_value(), l.cstr_value()));
}

/// Streams put together from many tokens in different ways.
fn check_built(s: &mut Src, cx: &mut Cx) -> R {
    let m: Vec<TT> = gen::model(s, 1, 5);
    if m.is_empty() {
        return Ok(());
    }
    let trees: Vec<TokenTree> = m.iter().map(model::build_tree).collect();
    let n = s.range(1 << 6, 1 << 11);
    let how = s.below(11);
    let keep = s.chance(1, 3);
    let what = format!("way {how}, {} again and again", model::show(&m));
    if cx.want_sample {
        cx.sample = Some(what.clone());
    }
    growth(n, cx, &what, |n| {
        let mut v = Costs::new();
        let make = |i: usize| trees[i % trees.len()].clone();
        let ts = named(&mut v, "building", || {
            let mut ts = TokenStream::new();
            match how {
                0 => (0..n).for_each(|i| ts.extend([make(i)])),
                1 => (0..n).for_each(|i| ts.extend(Some(TokenStream::from(make(i))))),
                2 => ts = (0..n).map(make).collect(),
                3 => ts = (0..n).map(|i| TokenStream::from(make(i))).collect(),
                4 => ts.extend((0..n).map(make)),
                5 => ts.extend((0..n).map(|i| TokenStream::from(make(i)))),
                6 => {
                    // nested
                    for i in 0..n {
                        ts = TokenStream::from(TokenTree::Group(Group::new(Delimiter::Parenthesis, ts)));
                        ts.extend([make(i)]);
                    }
                }
                7 => {
                    // one iterator feeding the next stream
                    ts = (0..n).map(make).collect();
                    for _ in 0..3 {
                        ts = ts.into_iter().collect();
                    }
                }
                8 => {
                    let one: TokenStream = trees.iter().cloned().collect();
                    (0..n).for_each(|_| ts.extend([one.clone()]));
                }
                9 => {
                    (0..n).for_each(|i| ts.extend([make(i)]));
                    (0..n).for_each(|_| ts.extend([TokenStream::new()]));
                }
                _ => (0..n).for_each(|i| {
                    if let TokenTree::Ident(x) = make(i) {
                        ts.extend([x]);
                    } else {
                        ts.extend([Ident::new("a", Span::call_site())]);
                    }
                }),
            }
            ts
        });
        // copies are free until they are changed
        named(&mut v, "many clones", || {
            let c: Vec<TokenStream> = (0..64).map(|_| ts.clone()).collect();
            let g = Group::new(Delimiter::Brace, ts.clone());
            let h: Vec<Group> = (0..64).map(|_| g.clone()).collect();
            let i: Vec<TokenStream> = (0..64).map(|_| g.stream()).collect();
            black_box((c.iter().all(TokenStream::is_empty), h, i));
        });
        let held = keep.then(|| ts.clone());
        used(&mut v, ts, None);
        drop(held);
        Some(v)
    })?;
    // the cost of a clone does not depend on the size at all
    let clones = |n: usize| {
        let ts: TokenStream = (0..n).map(|i| trees[i % trees.len()].clone()).collect();
        let g = Group::new(Delimiter::Bracket, ts.clone());
        let mut c = Cost::default();
        cost(&mut c, || black_box((ts.clone(), g.clone(), g.stream(), ts.is_empty())));
        c
    };
    let (a, b) = (clones(64), clones(64 * 64));
    if b.0 > 4 * a.0 + 500 || b.1 > 4 * a.1 + 4096 {
        return Err(format!("cloning a stream of 4096 tokens takes {b:?} (steps, bytes), one of 64 {a:?}\n  {what}"));
    }
    Ok(())
}

/// Long names and values.
fn check_values(s: &mut Src, cx: &mut Cx) -> R {
    let p = match s.below(4) {
        0 => gen::hot(s),
        1 => gen::ident_text(s),
        2 => ["\0", "\0" , "\r", "\n", "\"", "\\", "'", "é", "\u{301}", "a", "日", "\u{1f600}", "\u{7f}", "0", "\0001"][s.below(15)].to_owned(),
        _ => gen::frags(s),
    };
    if p.is_empty() {
        return Ok(());
    }
    let n = s.range(1 << 8, 1 << 11).div_ceil(p.len());
    let what = format!("{p:?} times size");
    if cx.want_sample {
        cx.sample = Some(what.clone());
    }
    growth(n, cx, &what, |n| {
        let t = p.repeat(n);
        let mut v = Costs::new();
        let l = named(&mut v, "a string literal", || Literal::string(&t));
        named(&mut v, "using a literal", || literal(&l));
        let l = named(&mut v, "a byte string literal", || Literal::byte_string(t.as_bytes()));
        named(&mut v, "using a byte string", || literal(&l));
        let c = CString::new(t.replace('\0', "")).unwrap();
        let l = named(&mut v, "a C string literal", || Literal::c_string(&c));
        named(&mut v, "using a C string", || literal(&l));
        let name = format!("a{}", t.chars().filter(|&c| crate::reflex::id_continue(c)).collect::<String>());
        let i = named(&mut v, "an identifier", || Ident::new(&name, Span::call_site()));
        named(&mut v, "using an identifier", || {
            let j = Ident::new_raw(&name, Span::call_site());
            black_box((i == j, i == name, i.cmp(&j), i.to_string(), format!("{i:?}"), i.clone()));
        });
        Some(v)
    })
}

/// Many strings parsed one after another on the thread.
#[cfg(feature = "spans")]
fn check_many(s: &mut Src, cx: &mut Cx) -> R {
    let texts: Vec<String> = (0..s.range(1, 4)).map(|_| piece(s)).collect();
    let n = s.range(1 << 6, 1 << 9);
    let what = format!("{texts:?} parsed again and again");
    if cx.want_sample {
        cx.sample = Some(what.clone());
    }
    proc_macro2::extra::invalidate_current_thread_spans();
    growth(n, cx, &what, |n| {
        let mut v = Costs::new();
        let all: Vec<TokenStream> = named(&mut v, "parsing many strings", || (0..n).filter_map(|i| TokenStream::from_str(&texts[i % texts.len()]).ok()).collect());
        let spans: Vec<Span> = all.into_iter().flatten().map(|t| t.span()).take(4 * n).collect();
        named(&mut v, "asking for places in many strings", || {
            for w in spans.windows(2) {
                black_box((w[0].start(), w[0].end(), w[0].byte_range(), w[0].file(), w[0].source_text(), w[0].join(w[1])));
            }
        });
        named(&mut v, "forgetting", proc_macro2::extra::invalidate_current_thread_spans);
        Some(v)
    })
}

pub fn c21(env: Env) -> Vec<Phase> {
    vec![
        tape("repeated-pieces", env.n(3_000), check_text),
        tape("built-streams", env.n(1_500), check_built),
        tape("long-values", env.n(1_200), check_values),
        #[cfg(feature = "spans")]
        tape("many-strings", env.n(300), check_many),
    ]
}

/// Copying counts as work too.
#[cfg(target_arch = "x86_64")]
mod copying {
    use super::EDGES;
    use std::arch::asm;
    use std::ffi::c_void;

    #[no_mangle]
    unsafe extern "C" fn memcpy(to: *mut c_void, from: *const c_void, n: usize) -> *mut c_void {
        EDGES = EDGES.wrapping_add(n as u64 / 64);
        asm!("rep movsb", inout("rcx") n => _, inout("rdi") to => _, inout("rsi") from => _, options(nostack, preserves_flags));
        to
    }

    #[no_mangle]
    unsafe extern "C" fn memmove(to: *mut c_void, from: *const c_void, n: usize) -> *mut c_void {
        EDGES = EDGES.wrapping_add(n as u64 / 64);
        if (to as usize).wrapping_sub(from as usize) >= n {
            asm!("rep movsb", inout("rcx") n => _, inout("rdi") to => _, inout("rsi") from => _, options(nostack, preserves_flags));
        } else {
            let (a, b) = ((to as usize).wrapping_add(n).wrapping_sub(1), (from as usize).wrapping_add(n).wrapping_sub(1));
            asm!("std", "rep movsb", "cld", inout("rcx") n => _, inout("rdi") a => _, inout("rsi") b => _, options(nostack));
        }
        to
    }
}
