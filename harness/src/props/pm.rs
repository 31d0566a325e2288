//! C17 and C18: the dispatch between the compiler's tokens and the fallback.
//! With feature `pm` this code runs inside a procedural macro.

use super::common::*;
use super::Env;
use crate::engine::*;
use crate::ensure;
use crate::gen;
use crate::model;
use crate::obs;
use crate::reflex::{Delim, Tok, TT};
use proc_macro2::{Delimiter, Group, Ident, Literal, Punct, Spacing, Span, TokenStream, TokenTree};
use std::str::FromStr;

extern crate proc_macro;

const UNAVAILABLE: &str = "proc_macro::Span is only available in procedural macros";

/// Is the span the compiler's?
fn compilers(s: Span) -> Result<bool, String> {
    match catch(|| s.unwrap()) {
        Ok(_) => Ok(true),
        Err(m) if m.starts_with(UNAVAILABLE) => Ok(false),
        Err(m) => Err(format!("Span::unwrap panicked with {m:?}")),
    }
}

#[cfg(feature = "pm")]
pub use inside::*;

#[cfg(feature = "pm")]
mod inside {
    use super::*;
    use super::super::tokens::{sid, snap_stream, Sid, Snap, SnapKind};
    use super::super::native::{comparable, has_none};
    use crate::pmspans;
    use crate::refval;
    use std::fmt::Write as _;

    pub fn forced<T>(f: impl FnOnce() -> T) -> T {
        proc_macro2::fallback::force();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
        proc_macro2::fallback::unforce();
        match r {
            Ok(v) => v,
            Err(p) => std::panic::resume_unwind(p),
        }
    }

    /// The first call of the process into the library.
    pub fn first_call(which: usize, input: &proc_macro::TokenStream) -> Option<String> {
        let r = catch(|| match which % 12 {
            0 => Span::call_site(),
            1 => Literal::u8_suffixed(1).span(),
            2 => TokenStream::from_str("a b").unwrap().into_iter().next().unwrap().span(),
            3 => Group::new(Delimiter::Parenthesis, TokenStream::new()).span(),
            4 => Punct::new('+', Spacing::Alone).span(),
            5 => Literal::from_str("1").unwrap().span(),
            6 => Group::new(Delimiter::Brace, Vec::<TokenTree>::new().into_iter().collect()).span(),
            7 => {
                proc_macro2::fallback::force();
                let s = Span::call_site();
                assert!(compilers(s) == Ok(false), "forced before the first use, the span is the compiler's");
                proc_macro2::fallback::unforce();
                Span::mixed_site()
            }
            8 => {
                proc_macro2::fallback::unforce();
                Literal::string("x").span()
            }
            9 => {
                // another thread, where the compiler is not available, is first
                let other = std::thread::spawn(|| catch(|| compilers(Span::call_site()))).join();
                let _ = other;
                proc_macro2::fallback::unforce();
                Span::call_site()
            }
            10 => {
                let t: TokenStream = [TokenTree::from(Literal::i8_unsuffixed(-5))].into_iter().collect();
                assert_eq!(t.clone().into_iter().count(), 2);
                t.into_iter().next().unwrap().span()
            }
            _ => TokenStream::from(input.clone()).into_iter().next().unwrap().span(),
        });
        let name = format!("first call {which}");
        match r {
            Err(p) => Some(format!("{name} panicked: {p}")),
            Ok(s) => match compilers(s) {
                Ok(true) => None,
                Ok(false) => Some(format!("{name} inside a procedural macro did not use the compiler's tokens")),
                Err(m) => Some(format!("{name}: {m}")),
            },
        }
    }

    // -------------------------------------------------------- compiler side

    fn pid(s: proc_macro::Span) -> Sid {
        Sid(format!("{s:?}"))
    }

    fn psnap(ts: proc_macro::TokenStream) -> Vec<Snap> {
        ts.into_iter()
            .map(|t| match t {
                proc_macro::TokenTree::Group(g) => Snap {
                    kind: SnapKind::Group(
                        match g.delimiter() {
                            proc_macro::Delimiter::Parenthesis => Delim::Paren,
                            proc_macro::Delimiter::Brace => Delim::Brace,
                            proc_macro::Delimiter::Bracket => Delim::Bracket,
                            proc_macro::Delimiter::None => Delim::None,
                        },
                        psnap(g.stream()),
                    ),
                    span: pid(g.span()),
                },
                proc_macro::TokenTree::Ident(i) => Snap {
                    kind: SnapKind::Ident(i.to_string()),
                    span: pid(i.span()),
                },
                proc_macro::TokenTree::Punct(p) => Snap {
                    kind: SnapKind::Punct(p.as_char(), p.spacing() == proc_macro::Spacing::Joint),
                    span: pid(p.span()),
                },
                proc_macro::TokenTree::Literal(l) => Snap {
                    kind: SnapKind::Lit(l.to_string()),
                    span: pid(l.span()),
                },
            })
            .collect()
    }

    fn snap_models(v: &[Snap]) -> Vec<TT> {
        v.iter()
            .map(|s| {
                model::plain(match &s.kind {
                    SnapKind::Group(d, i) => Tok::Group(*d, snap_models(i)),
                    SnapKind::Ident(i) => match i.strip_prefix("r#") {
                        Some(n) => Tok::Ident(n.to_owned(), true),
                        None => Tok::Ident(i.clone(), false),
                    },
                    SnapKind::Punct(c, j) => Tok::Punct(*c, *j),
                    SnapKind::Lit(l) => Tok::Lit(l.clone()),
                })
            })
            .collect()
    }

    /// Builds a stream through the compiler's API.
    fn native(ts: &[TT], s: &mut Src, spans: &[Span]) -> (proc_macro::TokenStream, Vec<Snap>) {
        let mut out = proc_macro::TokenStream::new();
        let mut want = Vec::new();
        for t in ts {
            let sp = s.pick(spans).unwrap();
            match &t.t {
                Tok::Group(d, inner) => {
                    let (st, w) = native(inner, s, spans);
                    let d2 = match d {
                        Delim::Paren => proc_macro::Delimiter::Parenthesis,
                        Delim::Brace => proc_macro::Delimiter::Brace,
                        Delim::Bracket => proc_macro::Delimiter::Bracket,
                        Delim::None => proc_macro::Delimiter::None,
                    };
                    let mut g = proc_macro::Group::new(d2, st);
                    g.set_span(sp);
                    out.extend([proc_macro::TokenTree::from(g)]);
                    want.push(Snap {
                        kind: SnapKind::Group(*d, w),
                        span: pid(sp),
                    });
                }
                Tok::Ident(n, raw) => {
                    let i = if *raw { proc_macro::Ident::new_raw(n, sp) } else { proc_macro::Ident::new(n, sp) };
                    out.extend([proc_macro::TokenTree::from(i)]);
                    want.push(Snap {
                        kind: SnapKind::Ident(if *raw { format!("r#{n}") } else { n.clone() }),
                        span: pid(sp),
                    });
                }
                Tok::Punct(c, j) => {
                    let mut p = proc_macro::Punct::new(*c, if *j { proc_macro::Spacing::Joint } else { proc_macro::Spacing::Alone });
                    p.set_span(sp);
                    out.extend([proc_macro::TokenTree::from(p)]);
                    want.push(Snap {
                        kind: SnapKind::Punct(*c, *j),
                        span: pid(sp),
                    });
                }
                Tok::Lit(l) => {
                    let mut p = proc_macro::Literal::from_str(l).expect("literal");
                    p.set_span(sp);
                    out.extend([proc_macro::TokenTree::from(p)]);
                    want.push(Snap {
                        kind: SnapKind::Lit(l.clone()),
                        span: pid(sp),
                    });
                }
            }
        }
        (out, want)
    }

    // -------------------------------------------------------- parsing

    pub fn pm_readable(m: &[TT], t: &str) -> bool {
        !has_none(m) && comparable(t)
    }

    /// A text both sides read alike, without doc comments.
    pub fn comparable_text(s: &mut Src) -> String {
        let m = gen::model(s, 2, 8);
        let t = model::print(&m);
        if !has_none(&m) && comparable(&t) {
            t
        } else {
            "a ( b )".to_owned()
        }
    }

    /// Literals may be spelled differently where the text comes from a doc
    /// comment.
    fn same_tokens(a: &[TT], b: &[TT], docs: bool) -> bool {
        a.len() == b.len()
            && a.iter().zip(b).all(|(x, y)| match (&x.t, &y.t) {
                (Tok::Group(d, i), Tok::Group(e, j)) => d == e && same_tokens(i, j, docs),
                (Tok::Lit(l), Tok::Lit(m)) => {
                    l == m || docs && l.starts_with(['"', 'r']) && m.starts_with('"') && refval::decode(l).map(|d| (d.val, d.suffix)) == refval::decode(m).map(|d| (d.val, d.suffix))
                }
                (x, y) => x == y,
            })
    }

    /// The error of a text rejected inside a macro: `outside` is what the
    /// fallback's prints.
    fn check_error(e: proc_macro2::LexError, outside: &str) -> R {
        same_span(e.span(), proc_macro::Span::call_site())?;
        ensure!(!outside.is_empty() && !e.to_string().is_empty(), "a lex error prints nothing");
        ensure!(!format!("{e:?}{e:#?}").is_empty(), "a lex error has no debug form");
        let held: Box<dyn std::error::Error> = Box::new(e);
        ensure!(!held.to_string().is_empty(), "a lex error prints nothing");
        Ok(())
    }

    /// Non-trivial: accepted, at least two tokens, comparable.
    pub fn check_parse(t: &str, cx: &mut Cx) -> R {
        if !comparable(t) {
            cx.label("left out");
            return Ok(());
        }
        let want = forced(|| TokenStream::from_str(t).map(model::dump).map_err(|e| e.to_string()));
        let got = TokenStream::from_str(t);
        match (got, want) {
            (Err(e), Err(m)) => {
                cx.label("rejected");
                check_error(e, &m)?;
            }
            (Ok(ts), Err(_)) => {
                return Err(format!("{} is accepted inside a macro ({}) but rejected outside", short(t), model::show(&model::dump(ts))));
            }
            (Err(e), Ok(m)) => {
                return Err(format!("{} is rejected inside a macro ({e}) but is {} outside", short(t), model::show(&m)));
            }
            (Ok(ts), Ok(m)) => {
                cx.nontrivial = model::count(&m) >= 2;
                let docs = t.contains("//") || t.contains("/*");
                let g = model::dump(ts.clone());
                ensure!(
                    same_tokens(&g, &m, docs),
                    "{} is {} inside a macro but {} outside",
                    short(t),
                    model::show(&g),
                    model::show(&m)
                );
                ensure!(ts.is_empty() == m.is_empty(), "is_empty is {} for {}", ts.is_empty(), short(t));
                // the tokens are the compiler's own for the text
                let p = proc_macro::TokenStream::from_str(t).map_err(|e| format!("the compiler rejects {}: {e}", short(t)))?;
                ensure!(model::show_all(&snap_models(&psnap(p))) == model::show_all(&g), "{} differs from the compiler's tokens", short(t));
                for tt in ts {
                    ensure!(compilers(tt.span())?, "a token parsed from {} inside a macro is not the compiler's", short(t));
                }
            }
        }
        Ok(())
    }

    /// Non-trivial: a comparable literal.
    pub fn check_literal(t: &str, cx: &mut Cx) -> R {
        let want = forced(|| Literal::from_str(t).map(|l| l.to_string()).map_err(|e| e.to_string()));
        let body = t.strip_prefix('-').unwrap_or(t);
        if want.is_ok() && !gen::pm_literal(body) {
            cx.label("left out");
            return Ok(());
        }
        match (Literal::from_str(t), want) {
            (Err(e), Err(m)) => {
                cx.label("rejected");
                check_error(e, &m)?;
            }
            (Ok(l), Ok(w)) => {
                cx.nontrivial = true;
                ensure!(l.to_string() == w, "literal {} prints as {l} inside a macro", short(t));
                ensure!(compilers(l.span())?, "the literal parsed from {} is not the compiler's", short(t));
                let ts = TokenStream::from(TokenTree::from(l));
                let v = psnap(proc_macro::TokenStream::from(ts.clone()));
                let m = model::split_negative(&[model::plain(Tok::Lit(w))]);
                ensure!(model::show_all(&snap_models(&v)) == model::show_all(&m), "the literal {} reaches the compiler as {}", short(t), model::show(&snap_models(&v)));
                ensure!(model::show_all(&model::dump(ts)) == model::show_all(&m), "the literal {} in a stream is wrong", short(t));
            }
            (Ok(l), Err(_)) => return Err(format!("{} is the literal {l} inside a macro but rejected outside", short(t))),
            (Err(e), Ok(_)) => return Err(format!("{} is rejected as a literal inside a macro: {e}", short(t))),
        }
        Ok(())
    }

    /// Non-trivial: a valid name.
    pub fn check_name(t: &str, cx: &mut Cx) -> R {
        // the compiler alone accepts the name of its own keyword $crate
        if !t.chars().all(gen::pm_char) || t == "$crate" {
            return Ok(());
        }
        for raw in [false, true] {
            let make = || catch(|| if raw { Ident::new_raw(t, Span::call_site()) } else { Ident::new(t, Span::call_site()) });
            let want = forced(|| make().map(|i| i.to_string()));
            match (make(), want) {
                (Ok(i), Ok(w)) => {
                    cx.nontrivial = true;
                    ensure!(i.to_string() == w, "identifier {} (raw {raw}) prints as {i} inside a macro, {w} outside", short(t));
                    ensure!(i == w && i == *w.as_str() && i != "\u{1}", "comparison of {w} with its text");
                    ensure!(compilers(i.span())?, "identifier {w} is not the compiler's");
                }
                (Err(_), Err(_)) => {}
                (a, b) => {
                    return Err(format!(
                        "creating the identifier {} (raw {raw}) {} inside a macro and {} outside",
                        short(t),
                        if a.is_ok() { "succeeds" } else { "panics" },
                        if b.is_ok() { "succeeds" } else { "panics" }
                    ))
                }
            }
        }
        Ok(())
    }

    // -------------------------------------------------------- tokens

    fn differ(what: &str, got: &[Snap], want: &[Snap]) -> R {
        if format!("{got:?}") == format!("{want:?}") {
            return Ok(());
        }
        Err(format!("{what}: {} instead of {}", super::super::tokens::show_snaps(got), super::super::tokens::show_snaps(want)))
    }

    /// The compiler glues punctuation where two streams meet, giving it one
    /// span.
    fn loose(v: &[Snap]) -> Vec<Snap> {
        v.iter()
            .map(|s| match &s.kind {
                SnapKind::Punct(c, j) => Snap {
                    kind: SnapKind::Punct(*c, *j),
                    span: Sid(String::new()),
                },
                SnapKind::Group(d, i) => Snap {
                    kind: SnapKind::Group(*d, loose(i)),
                    span: s.span.clone(),
                },
                _ => s.clone(),
            })
            .collect()
    }

    /// Tokens built here, seen by the compiler. Non-trivial: two tokens.
    pub fn check_out(s: &mut Src, cx: &mut Cx) -> R {
        let m = gen::wild_model(s, 2, 8);
        out_and_back(m, s, cx)
    }

    pub fn check_out_long(s: &mut Src, cx: &mut Cx) -> R {
        let m = gen::wild_model(s, 2, 8);
        let m = gen::lengthen(s, m);
        out_and_back(m, s, cx)
    }

    fn out_and_back(m: Vec<TT>, s: &mut Src, cx: &mut Cx) -> R {
        cx.nontrivial = model::count(&m) >= 2;
        if cx.want_sample {
            cx.sample = Some(model::show(&m));
        }
        let spans = super::super::tokens::distinct_spans();
        let ts = model::build_stream(&m, s, &spans);
        let mine = snap_stream(&ts);
        let want = model::split_negative(&m);
        ensure!(
            model::show_all(&snap_models(&mine)) == model::show_all(&want),
            "built inside a macro: {} instead of {}",
            model::show(&snap_models(&mine)),
            model::show(&want)
        );
        let shown = ts.to_string();
        let debug = format!("{ts:?}");
        let p = proc_macro::TokenStream::from(ts.clone());
        differ("the compiler sees", &psnap(p.clone()), &mine)?;
        ensure!(shown == p.to_string(), "the stream prints as {shown:?}, the compiler's as {:?}", p.to_string());
        ensure!(debug == format!("{p:?}"), "the stream's debug form is not the compiler's");
        let back = TokenStream::from(p.clone());
        differ("converted back", &snap_stream(&back), &mine)?;
        ensure!(ts.is_empty() == p.is_empty() && back.is_empty() == p.is_empty(), "is_empty disagrees with the compiler");
        // token by token
        let mut it = ts.clone().into_iter();
        let mut theirs = p.into_iter();
        for k in 0.. {
            let exact = (mine.len() - k, Some(mine.len() - k));
            let (lo, hi) = it.size_hint();
            ensure!(theirs.size_hint() != exact || (lo, hi) == exact, "size hint {:?}, the compiler's is {exact:?}", (lo, hi));
            let Some(q) = theirs.next() else { break };
            ensure!(lo <= mine.len() - k && hi.is_none_or(|h| h >= mine.len() - k), "size hint {:?} with {} tokens left", (lo, hi), mine.len() - k);
            let Some(t) = it.next() else {
                return Err("the stream ends before the compiler's".to_owned());
            };
            both_views(&t, &q)?;
        }
        ensure!(it.next().is_none() && it.next().is_none(), "the stream goes on after the compiler's");
        // the other direction
        let w = gen::wild_model(s, 2, 6);
        let w: Vec<TT> = model::split_negative(&w);
        let (p, _) = native(&w, s, &spans);
        // (the compiler may have glued tokens, such as lifetimes)
        let want = psnap(p.clone());
        let ts = TokenStream::from(p);
        differ("the compiler's tokens as seen here", &snap_stream(&ts), &want)?;
        // and extended
        let mut all = back;
        all.extend([ts.clone()]);
        let mut both = mine.clone();
        both.extend(want.iter().cloned());
        differ("extended by the compiler's stream", &loose(&psnap(proc_macro::TokenStream::from(all.clone()))), &loose(&both))?;
        all.extend(ts.clone());
        both.extend(want.iter().cloned());
        ensure!(all.is_empty() == both.is_empty(), "is_empty is {} with {} tokens", all.is_empty(), both.len());
        let copy = all.clone();
        all.extend([ts]);
        differ("a clone", &loose(&snap_stream(&copy)), &loose(&both))?;
        both.extend(want);
        differ("extended by tokens and streams", &loose(&snap_stream(&all)), &loose(&both))
    }

    fn both_views(t: &TokenTree, q: &proc_macro::TokenTree) -> R {
        ensure!(t.to_string() == q.to_string(), "{t} and the compiler's {q}");
        same_span(t.span(), q.span())?;
        match (t, q) {
            (TokenTree::Group(g), proc_macro::TokenTree::Group(h)) => {
                same_span(g.span(), h.span())?;
                same_span(g.span_open(), h.span_open())?;
                same_span(g.span_close(), h.span_close())?;
                same_span(g.delim_span().join(), h.span())?;
                same_span(g.delim_span().open(), h.span_open())?;
                same_span(g.delim_span().close(), h.span_close())?;
                ensure!(g.to_string() == h.to_string(), "the group {g} prints differently from the compiler's");
                ensure!(format!("{g:?}") == format!("{h:?}"), "the group {g} has another debug form");
            }
            (TokenTree::Ident(i), proc_macro::TokenTree::Ident(j)) => {
                ensure!(format!("{i:?}") == format!("{j:?}"), "the identifier {i} has another debug form");
            }
            (TokenTree::Literal(i), proc_macro::TokenTree::Literal(j)) => {
                ensure!(format!("{i:?}") == format!("{j:?}"), "the literal {i} has another debug form");
                use std::ops::Bound::{Excluded, Included, Unbounded};
                let n = j.to_string().len();
                for r in [
                    (Included(0), Excluded(0)),
                    (Included(0), Excluded(1)),
                    (Included(1), Excluded(2)),
                    (Included(1), Excluded(1)),
                    (Included(0), Excluded(1000)),
                    (Included(2), Excluded(1)),
                    (Included(0), Included(0)),
                    (Included(0), Included(1)),
                    (Included(1), Included(1)),
                    (Included(0), Included(1000)),
                    (Included(0), Included(n)),
                    (Included(0), Included(n.saturating_sub(1))),
                    (Included(0), Excluded(n)),
                    (Included(n), Excluded(n)),
                    (Included(n), Unbounded),
                    (Excluded(0), Excluded(2)),
                    (Excluded(0), Included(1)),
                    (Excluded(0), Unbounded),
                    (Excluded(1), Unbounded),
                    (Included(1), Unbounded),
                    (Unbounded, Excluded(1)),
                    (Unbounded, Included(1)),
                    (Unbounded, Unbounded),
                ] {
                    let a = i.subspan(r);
                    #[cfg(feature = "nightly")]
                    {
                        let b = j.subspan(r);
                        ensure!(a.is_some() == b.is_some(), "subspan({r:?}) of {i} is {a:?}, the compiler's {b:?}");
                        if let (Some(a), Some(b)) = (a, b) {
                            same_span(a, b)?;
                        }
                    }
                    #[cfg(not(feature = "nightly"))]
                    ensure!(a.is_none(), "subspan({r:?}) of {i} is {a:?} on a stable compiler");
                }
            }
            (TokenTree::Punct(p), proc_macro::TokenTree::Punct(_)) => {
                let d = format!("{p:?}");
                let sp = format!("{:?}", p.span());
                let want = format!("Punct {{ char: {:?}, spacing: {:?}, span: {sp} }}", p.as_char(), p.spacing());
                ensure!(d == want, "a punctuation has debug form {d} instead of {want}");
            }
            _ => return Err(format!("{t} is of another kind than the compiler's {q}")),
        }
        Ok(())
    }

    fn all_views(ts: TokenStream, p: proc_macro::TokenStream, cx: &mut Cx) -> R {
        let (mut a, mut b) = (ts.into_iter(), p.into_iter());
        loop {
            cx.extra += 1;
            match (a.next(), b.next()) {
                (None, None) => return Ok(()),
                (Some(t), Some(q)) => {
                    both_views(&t, &q)?;
                    if let (TokenTree::Group(g), proc_macro::TokenTree::Group(h)) = (&t, &q) {
                        all_views(g.stream(), h.stream(), cx)?;
                    }
                }
                (t, q) => return Err(format!("token {t:?}, but the compiler has {q:?}")),
            }
        }
    }

    /// The tokens the compiler gave to the macro, some of them rearranged.
    /// Non-trivial: at least two tokens are kept.
    pub fn check_input(s: &mut Src, cx: &mut Cx) -> R {
        fn pairs(ts: TokenStream, p: proc_macro::TokenStream, v: &mut Vec<(TokenTree, proc_macro::TokenTree)>) {
            for (t, q) in ts.into_iter().zip(p) {
                if let (TokenTree::Group(g), proc_macro::TokenTree::Group(h)) = (&t, &q) {
                    pairs(g.stream(), h.stream(), v);
                }
                v.push((t, q));
            }
        }
        let mut all = Vec::new();
        pairs(TokenStream::from(pmspans::raw_input()), pmspans::raw_input(), &mut all);
        if s.chance(1, 20) {
            cx.nontrivial = true;
            return all_views(TokenStream::from(pmspans::raw_input()), pmspans::raw_input(), cx);
        }
        // (groups and the like, which the compiler does not glue together)
        let n = s.range(1, 8);
        let mut picked: Vec<(TokenTree, proc_macro::TokenTree)> = Vec::new();
        for _ in 0..n {
            let k = s.below(all.len());
            if !matches!(all[k].0, TokenTree::Punct(_)) {
                picked.push(all[k].clone());
            }
        }
        // some are given other spans, groups are made anew
        for (t, q) in &mut picked {
            if s.chance(1, 3) {
                let k = s.below(all.len());
                t.set_span(all[k].0.span());
                q.set_span(all[k].1.span());
                both_views(t, q)?;
            }
            if let (TokenTree::Group(g), proc_macro::TokenTree::Group(h)) = (&*t, &*q) {
                if s.chance(1, 3) {
                    let mut g2 = Group::new(g.delimiter(), g.stream());
                    let mut h2 = proc_macro::Group::new(h.delimiter(), h.stream());
                    if s.chance(1, 2) {
                        g2.set_span(g.span());
                        h2.set_span(h.span());
                    }
                    *t = g2.into();
                    *q = h2.into();
                }
            }
            if let (TokenTree::Literal(l), proc_macro::TokenTree::Literal(m)) = (&*t, &*q) {
                use std::ops::Bound::{Excluded, Included, Unbounded};
                let mut bound = || match s.below(3) {
                    0 => Included(s.below(14)),
                    1 => Excluded(s.below(14)),
                    _ => Unbounded,
                };
                let r = (bound(), bound());
                #[cfg(feature = "nightly")]
                {
                    let b = m.subspan(r);
                    let a = l.subspan(r);
                    ensure!(a.is_some() == b.is_some(), "subspan({r:?}) of {l} is {a:?}, the compiler's {b:?}");
                    if let (Some(a), Some(b)) = (a, b) {
                        same_span(a, b)?;
                        // (the compiler panics when asked for the text of a part of a character)
                        if m.span().source_text().is_some_and(|t| t.is_ascii()) {
                            query(a, cx)?;
                        }
                    }
                }
                #[cfg(not(feature = "nightly"))]
                {
                    let _ = m;
                    let a = l.subspan(r);
                    ensure!(a.is_none(), "subspan({r:?}) of {l} is {a:?} on a stable compiler");
                }
            }
        }
        cx.nontrivial = picked.len() >= 2;
        let want: proc_macro::TokenStream = picked.iter().map(|x| x.1.clone()).collect();
        let mut ts = TokenStream::new();
        match s.below(4) {
            0 => ts = picked.iter().map(|x| x.0.clone()).collect(),
            1 => ts.extend(picked.iter().map(|x| x.0.clone())),
            2 => {
                for (t, _) in &picked {
                    if s.chance(1, 2) {
                        ts.extend([t.clone()]);
                    } else {
                        ts.extend([TokenStream::from(t.clone())]);
                    }
                }
            }
            _ => ts.extend(picked.iter().map(|x| TokenStream::from(proc_macro::TokenStream::from(x.1.clone())))),
        }
        let want_tokens: Vec<proc_macro::TokenTree> = want.into_iter().collect();
        let got: Vec<TokenTree> = ts.clone().into_iter().collect();
        ensure!(got.len() == want_tokens.len(), "{} tokens, the compiler has {}", got.len(), want_tokens.len());
        for (t, q) in got.iter().zip(&want_tokens) {
            both_views(t, q)?;
        }
        all_views(ts.clone(), proc_macro::TokenStream::from(ts), cx)
    }

    fn same_span(a: Span, b: proc_macro::Span) -> R {
        ensure!(pid(b) == sid(a), "span {:?} instead of the compiler's {:?}", a, b);
        ensure!(compilers(a)?, "span {a:?} is not the compiler's");
        ensure!(pid(a.unwrap()) == pid(b), "unwrapped span {:?} instead of {:?}", a.unwrap(), b);
        Ok(())
    }

    // -------------------------------------------------------- spans

    /// Every query against the compiler's own answer.
    fn query(a: Span, cx: &mut Cx) -> R {
        cx.extra += 1;
        let b = a.unwrap();
        same_span(a, b)?;
        // (old compilers do not offer it)
        let text = if cfg!(feature = "old") { None } else { b.source_text() };
        ensure!(a.source_text() == text, "source_text of {a:?} is {:?} instead of {text:?}", a.source_text());
        #[cfg(feature = "spans")]
        {
            let (s, e) = (a.start(), a.end());
            let (ps, pe) = (b.start(), b.end());
            ensure!(s.line == ps.line() && s.column + 1 == ps.column().max(1), "start of {a:?} is {s:?}, the compiler's is {}:{}", ps.line(), ps.column());
            ensure!(e.line == pe.line() && e.column + 1 == pe.column().max(1), "end of {a:?} is {e:?}, the compiler's is {}:{}", pe.line(), pe.column());
            ensure!(a.file() == b.file(), "file of {a:?} is {:?} instead of {:?}", a.file(), b.file());
            ensure!(a.local_file() == b.local_file(), "local file of {a:?} is {:?} instead of {:?}", a.local_file(), b.local_file());
            #[cfg(feature = "nightly")]
            ensure!(a.byte_range() == b.byte_range(), "byte range of {a:?} is {:?} instead of {:?}", a.byte_range(), b.byte_range());
            #[cfg(not(feature = "nightly"))]
            ensure!(a.byte_range() == (0..0), "byte range of {a:?} is {:?} on a stable compiler", a.byte_range());
        }
        Ok(())
    }

    /// Span algebra. Non-trivial: always.
    pub fn check_spans(s: &mut Src, cx: &mut Cx) -> R {
        cx.nontrivial = true;
        let mut v = super::super::tokens::distinct_spans();
        v.push(Span::mixed_site());
        #[cfg(feature = "exempt")]
        v.push(Span::def_site());
        fn groups(ts: TokenStream, v: &mut Vec<Span>) {
            for t in ts {
                if let TokenTree::Group(g) = t {
                    v.push(g.span_open());
                    v.push(g.span_close());
                    groups(g.stream(), v);
                }
            }
        }
        groups(pmspans::input(), &mut v);
        same_span(Span::call_site(), proc_macro::Span::call_site())?;
        same_span(Span::mixed_site(), proc_macro::Span::mixed_site())?;
        #[cfg(feature = "exempt")]
        same_span(Span::def_site(), proc_macro::Span::def_site())?;
        let mut log = String::new();
        for _ in 0..s.range(1, 8) {
            let (i, j) = (s.below(v.len()), s.below(v.len()));
            let (a, b) = (v[i], v[j]);
            match s.below(4) {
                0 => {
                    let _ = write!(log, "resolved_at {i} {j}; ");
                    let c = a.resolved_at(b);
                    same_span(c, a.unwrap().resolved_at(b.unwrap()))?;
                    v.push(c);
                }
                1 => {
                    let _ = write!(log, "located_at {i} {j}; ");
                    let c = a.located_at(b);
                    same_span(c, a.unwrap().located_at(b.unwrap()))?;
                    v.push(c);
                }
                2 => {
                    let _ = write!(log, "join {i} {j}; ");
                    let c = a.join(b);
                    #[cfg(feature = "nightly")]
                    {
                        let d = a.unwrap().join(b.unwrap());
                        ensure!(c.is_some() == d.is_some(), "join of {a:?} and {b:?} is {c:?} instead of {d:?}");
                        if let (Some(c), Some(d)) = (c, d) {
                            same_span(c, d)?;
                            v.push(c);
                        }
                    }
                    #[cfg(not(feature = "nightly"))]
                    ensure!(c.is_none(), "join gives {c:?} on a stable compiler");
                }
                _ => {
                    let _ = write!(log, "query {i}; ");
                    query(a, cx)?;
                    let c = Span::from(a.unwrap());
                    same_span(c, a.unwrap())?;
                    #[cfg(feature = "exempt")]
                    ensure!(a.eq(&b) == a.unwrap().eq(&b.unwrap()), "eq of {a:?} and {b:?} is {}", a.eq(&b));
                }
            }
            // the arguments are as they were
            ensure!(sid(v[i]) == sid(a) && sid(v[j]) == sid(b), "a span operation altered its arguments");
        }
        for x in &v[..v.len().min(3)] {
            query(*x, cx)?;
        }
        query(*v.last().unwrap(), cx)?;
        if cx.want_sample {
            cx.sample = Some(log);
        }
        Ok(())
    }

    // -------------------------------------------------------- histories

    /// Non-trivial: at least 60 bytes observed.
    pub fn check_histories(s: &mut Src, cx: &mut Cx) -> R {
        let n = s.range(8, 300);
        let tape: Vec<u64> = (0..n).map(|_| s.u64()).collect();
        let got = catch(|| obs::history(&tape, false, &mut |_| {})).map_err(|m| format!("panic inside a macro: {m}"))?;
        let want = forced(|| obs::history(&tape, false, &mut |_| {}));
        cx.nontrivial = want.len() >= 60;
        if cx.want_sample {
            cx.sample = Some(want.chars().take(400).collect());
        }
        if got != want {
            let (a, b): (Vec<char>, Vec<char>) = (got.chars().collect(), want.chars().collect());
            let d = a.iter().zip(&b).take_while(|(x, y)| x == y).count();
            let from = d.saturating_sub(60);
            let cut = |v: &[char]| v[from.min(v.len())..(d + 100).min(v.len())].iter().collect::<String>();
            return Err(format!("inside a macro the history gives ...{:?}..., outside ...{:?}...", cut(&a), cut(&b)));
        }
        Ok(())
    }

    fn renamed(prefix: &str, v: Vec<Phase>, only: &[&str], cases: u64) -> Vec<Phase> {
        v.into_iter()
            .filter(|p| only.contains(&p.name.as_str()))
            .map(|mut p| {
                p.name = format!("{prefix}-{}", p.name);
                p.cases = p.cases.min(cases);
                p.exhaustive = false;
                p
            })
            .collect()
    }

    pub fn c17(env: Env) -> Vec<Phase> {
        let small = Env { scale: env.scale.min(99), ..env };
        let mut v = vec![
            tape("out-and-back", env.n(12_000), check_out),
            tape("out-and-back-long", env.n(1_200), check_out_long),
            tape("histories", env.n(16_000), check_histories),
            tape("spans", env.n(20_000), check_spans),
            tape("input", env.n(20_000), check_input),
            text("compiles", env.n(60), texts, check_compiles),
            text("clean", env.n(24_000), clean, check_parse),
            text("clean-long", env.n(3_000), clean_long, check_parse),
            text("stretched", env.n(4_000), |s| gen::stretched_to(s, 10), check_parse),
            text(
                "stretched-literals",
                env.n(6_000),
                |s| {
                    let l = gen::literal(s, true);
                    gen::stretch(s, &l, 10)
                },
                check_literal,
            ),
            text(
                "stretched-names",
                env.n(4_000),
                |s| {
                    let n = gen::ident_text(s);
                    gen::stretch(s, &n, 10)
                },
                check_name,
            ),
            text("tokens", env.n(10_000), gen::tokens, check_parse),
            text("sloppy", env.n(30_000), gen::sloppy, check_parse),
            text("hot", env.n(30_000), gen::hot, check_parse),
            text("literals", env.n(24_000), |s| gen::literal(s, true), check_literal),
            text("names", env.n(10_000), gen::ident_text, check_name),
            words(check_parse),
            Phase { name: "words-literals".into(), ..words(check_literal) },
            Phase { name: "words-names".into(), ..words(check_name) },
        ];
        v.extend(renamed("sequence", super::super::history::c11(small), &["histories"], env.n(10_000)));
        v.extend(renamed("tokens", super::super::tokens::c10(small), &["token-histories", "groups"], env.n(10_000)));
        v.extend(renamed("idents", super::super::tokens::c09(small), &["pairs"], env.n(20_000)));
        let mut values = super::super::values::c07(small);
        values.retain(|p| p.name != "32-bit-blocks");
        for p in &mut values {
            p.name = format!("values-{}", p.name);
            p.exhaustive = false;
            p.cases = p.cases.min(env.n(8_000));
        }
        v.extend(values);
        #[cfg(feature = "exempt")]
        {
            let only = ["literals", "mutated-literals", "from-values", "from-long-values", "stretched-literals", "enum-bodies", "chars-in-literals", "all-byte-escapes", "words"];
            v.extend(renamed("decode", super::super::values::c08(small), &only, env.n(8_000)));
        }
        v
    }

    /// What the other properties promise holds inside a macro as well.
    pub fn inside(prop: &str, env: Env) -> Option<Vec<Phase>> {
        let small = Env { scale: env.scale.min(99), ..env };
        Some(match prop {
            "C01" => vec![
                text("inside-sloppy", env.n(20_000), gen::sloppy, check_total),
                text("inside-mutated", env.n(20_000), gen::mutated, check_total),
                text("inside-hot", env.n(30_000), gen::hot, check_total),
                text("inside-fragments", env.n(30_000), gen::frags, check_total),
                text("inside-literals", env.n(20_000), |s| gen::literal(s, true), check_total),
                Phase { name: "inside-words".into(), ..words(check_total) },
            ],
            "C07" => {
                let mut v = super::super::values::c07(small);
                v.retain(|p| p.name != "32-bit-blocks");
                for p in &mut v {
                    p.name = format!("inside-{}", p.name);
                    p.exhaustive = false;
                    p.cases = p.cases.min(env.n(8_000));
                }
                v
            }
            "C08" => {
                let only = ["literals", "mutated-literals", "from-values", "from-long-values", "stretched-literals", "enum-bodies", "chars-in-literals", "all-byte-escapes", "words"];
                renamed("inside", super::super::values::c08(small), &only, env.n(8_000))
            }
            "C09" => {
                let mut v = renamed("inside", super::super::tokens::c09(small), &["pairs"], env.n(40_000));
                v.push(text("inside-names", env.n(20_000), gen::ident_text, check_name));
                v.push(text("inside-hot", env.n(10_000), gen::hot, check_name));
                v.push(Phase { name: "inside-words".into(), ..words(check_name) });
                v
            }
            "C10" => {
                let mut v = renamed("inside", super::super::tokens::c10(small), &["token-histories", "groups"], env.n(20_000));
                v.push(tape("inside-views", env.n(12_000), check_out));
                v.push(tape("inside-input", env.n(10_000), check_input));
                v
            }
            "C11" => {
                let mut v = renamed("inside", super::super::history::c11(small), &["histories"], env.n(20_000));
                v.push(tape("inside-views", env.n(12_000), check_out));
                v.push(tape("inside-views-long", env.n(1_200), check_out_long));
                v.push(tape("inside-observed", env.n(12_000), check_histories));
                v
            }
            "C12" => renamed("inside", super::super::history::c11(small), &["histories"], env.n(30_000)),
            "C19" => vec![
                tape("inside-debug", env.n(20_000), check_debug),
                tape("inside-debug-long", env.n(600), |s, cx| {
                    let m = gen::wild_model(s, 2, 8);
                    let m = gen::lengthen(s, m);
                    // (every span shown is a call into the compiler)
                    fn depth(m: &[TT]) -> usize {
                        m.iter().map(|t| if let Tok::Group(_, i) = &t.t { 1 + depth(i) } else { 0 }).max().unwrap_or(0)
                    }
                    if model::count(&m) > 1500 || depth(&m) > 24 {
                        cx.label("too long");
                        return Ok(());
                    }
                    debug_of(&m, s, cx)
                }),
            ],
            "C20" => vec![
                text("inside-literals", env.n(30_000), |s| gen::literal(s, true), check_literal),
                text(
                    "inside-mutated",
                    env.n(30_000),
                    |s| {
                        let l = gen::literal(s, true);
                        gen::mutate(s, &l)
                    },
                    check_literal,
                ),
                text("inside-hot", env.n(20_000), gen::hot, check_literal),
                text("inside-tokens", env.n(10_000), gen::tokens, check_literal),
                Phase { name: "inside-words".into(), ..words(check_literal) },
            ],
            _ => return None,
        })
    }

    /// Whatever the text, a value or an error. Non-trivial: not plain white
    /// space.
    fn check_total(t: &str, cx: &mut Cx) -> R {
        cx.nontrivial = !t.trim().is_empty();
        match TokenStream::from_str(t) {
            Ok(ts) => {
                cx.label("accepted");
                let _ = (ts.to_string(), format!("{ts:?}"), ts.is_empty());
                let c = ts.clone();
                for tt in ts {
                    let _ = (tt.to_string(), format!("{tt:?}"), tt.span().source_text());
                }
                let mut it = c.into_iter();
                let _ = (it.next(), it.size_hint());
            }
            Err(e) => {
                cx.label("rejected");
                check_error(e, "x")?;
            }
        }
        match Literal::from_str(t) {
            Ok(l) => {
                let _ = (l.to_string(), format!("{l:?}"), l.span().source_text());
            }
            Err(e) => check_error(e, "x")?,
        }
        Ok(())
    }

    fn check_debug(s: &mut Src, cx: &mut Cx) -> R {
        let m = gen::wild_model(s, 2, 8);
        debug_of(&m, s, cx)
    }

    /// Debug forms against the compiler's. Non-trivial: at least two tokens.
    fn debug_of(m: &[TT], s: &mut Src, cx: &mut Cx) -> R {
        cx.nontrivial = model::count(m) >= 2;
        if cx.want_sample {
            cx.sample = Some(model::show(m));
        }
        let spans = super::super::tokens::distinct_spans();
        let ts = model::build_stream(m, s, &spans);
        let (plain, pretty) = (format!("{ts:?}"), format!("{ts:#?}"));
        let p = proc_macro::TokenStream::from(ts.clone());
        ensure!(plain == format!("{p:?}"), "a stream's debug form is {} instead of {}", short(&plain), short(&format!("{p:?}")));
        ensure!(pretty == format!("{p:#?}"), "a stream's pretty debug form is {} instead of {}", short(&pretty), short(&format!("{p:#?}")));
        let trees: Vec<TokenTree> = ts.clone().into_iter().collect();
        let mut shown = Vec::new();
        for (t, q) in trees.iter().zip(p) {
            cx.extra += 1;
            both_views(t, &q)?;
            let sp = format!("{:?}", q.span());
            let (mut d, e) = (format!("{t:?}"), format!("{t:#?}"));
            match (&q, t) {
                (proc_macro::TokenTree::Ident(i), _) => {
                    let want = format!("Ident {{ sym: {i}, span: {sp} }}");
                    ensure!(d == want, "a token tree has debug form {} instead of {}", short(&d), short(&want));
                    let want = format!("Ident {{\n    sym: {i},\n    span: {sp},\n}}");
                    ensure!(e == want, "a token tree has pretty debug form {} instead of {}", short(&e), short(&want));
                }
                (_, TokenTree::Group(g)) => ensure!(d == format!("{g:?}") && e == format!("{g:#?}"), "a group's debug form in a token tree is {}", short(&d)),
                (_, TokenTree::Punct(g)) => ensure!(d == format!("{g:?}") && e == format!("{g:#?}"), "a punctuation's debug form in a token tree is {}", short(&d)),
                (_, TokenTree::Literal(g)) => ensure!(d == format!("{g:?}") && e == format!("{g:#?}"), "a literal's debug form in a token tree is {}", short(&d)),
                _ => {}
            }
            // and as a stream of its own
            if s.chance(1, 8) {
                d = format!("{:?}", TokenStream::from(t.clone()));
                let want = format!("{:?}", proc_macro::TokenStream::from(q));
                ensure!(d == want, "a stream of one token has debug form {} instead of {}", short(&d), short(&want));
                d = format!("{t:?}");
            }
            shown.push(d);
        }
        // iterators show what is left
        let mut it = ts.into_iter();
        for k in 0..=shown.len() {
            if k <= if shown.len() > 64 { 0 } else { 3 } || k + 3 >= shown.len() {
                let d = format!("{it:?}");
                let want = format!("TokenStream [{}]", shown[k..].join(", "));
                ensure!(d == want, "an iterator with {} tokens left has debug form {} instead of {}", shown.len() - k, short(&d), short(&want));
                ensure!(format!("{it:#?}").len() >= want.len(), "an iterator's pretty debug form is shorter than the plain one");
            }
            ensure!(it.next().is_some() == (k < shown.len()), "an iterator ends early or late");
        }
        Ok(())
    }

    /// Tokens with arbitrary separators between them.
    fn clean(s: &mut Src) -> String {
        let m = gen::model(s, 2, 10);
        let mut o = String::new();
        write_clean(&m, s, &mut o);
        o
    }

    fn clean_long(s: &mut Src) -> String {
        let m = gen::model(s, 2, 8);
        let m = gen::lengthen(s, m);
        let mut o = String::new();
        write_clean(&m, s, &mut o);
        o
    }

    fn write_clean(m: &[TT], s: &mut Src, o: &mut String) {
        for (k, t) in m.iter().enumerate() {
            let mut tight = false;
            match &t.t {
                Tok::Group(d, i) => {
                    let (a, b) = match d {
                        Delim::Paren => ("(", ")"),
                        Delim::Brace => ("{", "}"),
                        Delim::Bracket => ("[", "]"),
                        Delim::None => (" ", " "),
                    };
                    o.push_str(a);
                    write_clean(i, s, o);
                    o.push_str(b);
                    tight = s.chance(1, 2) && !matches!(m.get(k + 1).map(|t| &t.t), Some(Tok::Punct('\'', _)));
                }
                Tok::Ident(n, raw) => {
                    if *raw {
                        o.push_str("r#");
                    }
                    o.push_str(n);
                }
                Tok::Punct(c, j) => {
                    o.push(*c);
                    tight = *j;
                }
                Tok::Lit(l) => o.push_str(l),
            }
            if !tight {
                o.push_str([" ", "\n", "  ", "\t", " /* x */ ", " // y\n", " /// doc\n", " /** block */ ", "\n//! inner\n", "/*/**/*/ "][match s.below(12) {
                    n @ 0..=9 => n,
                    _ => 0,
                }]);
            }
        }
    }

    // -------------------------------------------------------- C18

    #[derive(Clone)]
    enum V {
        Stream(TokenStream, Vec<TT>, bool),
        Tree(TokenTree, Vec<TT>, bool),
        Span(Span, bool),
    }

    fn mismatch<T>(r: Result<T, String>, expect: bool, what: &str) -> Result<Option<T>, String> {
        match r {
            Ok(v) => {
                if expect {
                    return Err(format!("{what}: combining the compiler's and the fallback's values did not panic"));
                }
                Ok(Some(v))
            }
            Err(m) => {
                if !expect {
                    return Err(format!("{what}: panicked: {m}"));
                }
                if !m.starts_with("compiler/fallback mismatch") {
                    return Err(format!("{what}: panicked with {m:?} instead of a mismatch message"));
                }
                Ok(None)
            }
        }
    }

    fn verify(v: &V, log: &str) -> R {
        match v {
            V::Stream(ts, m, c) => {
                let d = model::dump(ts.clone());
                ensure!(model::show_all(&d) == model::show_all(m), "a stream holds {} instead of {} after: {log}", model::show(&d), model::show(m));
                let g = Group::new(Delimiter::None, ts.clone());
                ensure!(compilers(g.span())? == *c, "a stream's backend changed after: {log}");
                let _ = (ts.to_string(), format!("{ts:?}"));
            }
            V::Tree(t, m, c) => {
                let d = [model::dump_tree(t)];
                ensure!(model::show_all(&d) == model::show_all(m), "a token is {} instead of {} after: {log}", model::show(&d), model::show(m));
                ensure!(compilers(t.span())? == *c, "a token's backend changed after: {log}");
            }
            V::Span(s, c) => ensure!(compilers(*s)? == *c, "a span's backend changed after: {log}"),
        }
        Ok(())
    }

    /// Histories of forcing, creating and combining. Non-trivial: values of
    /// both backends met.
    pub fn check_backends(s: &mut Src, cx: &mut Cx) -> R {
        let mut pool: Vec<V> = Vec::new();
        let mut log = String::new();
        let r = backends(s, cx, &mut pool, &mut log);
        proc_macro2::fallback::unforce();
        if cx.want_sample {
            cx.sample = Some(log);
        }
        r
    }

    fn new_token(s: &mut Src, real: bool, log: &mut String) -> Result<V, String> {
        let m = gen::model(s, 1, 3)
            .into_iter()
            .find(|t| !matches!(t.t, Tok::Punct('\'', _)))
            .unwrap_or_else(|| model::plain(Tok::Ident("a".to_owned(), false)));
        let t = catch(|| model::build_tree(&m)).map_err(|p| format!("creating a token panicked: {p}"))?;
        let _ = write!(log, "new token {}; ", model::show(std::slice::from_ref(&m)));
        Ok(V::Tree(t, vec![m], real))
    }

    /// Some value of a kind, or any if there is none.
    fn at(pool: &[V], s: &mut Src, f: fn(&V) -> bool) -> usize {
        let v: Vec<usize> = (0..pool.len()).filter(|&k| f(&pool[k])).collect();
        if v.is_empty() {
            s.below(pool.len())
        } else {
            *s.pick(&v)
        }
    }

    fn backends(s: &mut Src, cx: &mut Cx, pool: &mut Vec<V>, log: &mut String) -> R {
        let mut real = true; // what new values are made of
        pool.push(V::Span(Span::call_site(), true));
        if s.chance(3, 4) {
            // something of each kind and origin to begin with
            for origin in [true, false] {
                if origin {
                    proc_macro2::fallback::unforce();
                } else {
                    proc_macro2::fallback::force();
                }
                pool.push(V::Span(Span::mixed_site(), origin));
                for _ in 0..2 {
                    let t = new_token(s, origin, log)?;
                    pool.push(t);
                }
                let m = gen::model(s, 1, 3);
                let ts = model::build_stream(&m, s, &[Span::call_site()]);
                pool.push(V::Stream(ts, m, origin));
            }
            real = s.chance(1, 2);
            if real {
                proc_macro2::fallback::unforce();
            } else {
                proc_macro2::fallback::force();
            }
            let _ = write!(log, "begin with both ({real}); ");
        }
        for _ in 0..s.range(3, 20) {
            let op = s.below(16);
            match op {
                0 => {
                    let _ = write!(log, "force; ");
                    proc_macro2::fallback::force();
                    real = false;
                }
                1 => {
                    let _ = write!(log, "unforce; ");
                    proc_macro2::fallback::unforce();
                    real = true;
                }
                2 => {
                    let _ = write!(log, "new span; ");
                    pool.push(V::Span(if s.chance(1, 2) { Span::call_site() } else { Span::mixed_site() }, real));
                }
                3 | 4 => {
                    let t = new_token(s, real, log)?;
                    pool.push(t);
                }
                5 => {
                    let m = gen::model(s, 1, 4);
                    let _ = write!(log, "new stream {}; ", model::show(&m));
                    let spans = [Span::call_site()];
                    let ts = catch(|| model::build_stream(&m, s, &spans)).map_err(|p| format!("building a stream panicked: {p} after: {log}"))?;
                    pool.push(V::Stream(ts, m, real));
                }
                6 => {
                    let m = gen::model(s, 1, 4);
                    let text = model::print(&m);
                    if has_none(&m) || !comparable(&text) {
                        continue;
                    }
                    let _ = write!(log, "parse {text:?}; ");
                    let ts = TokenStream::from_str(&text).map_err(|e| format!("{text:?}: {e} after: {log}"))?;
                    pool.push(V::Stream(ts, m, real));
                }
                7 => {
                    // conversions
                    let at = pool.iter().enumerate().filter(|(_, v)| matches!(v, V::Stream(..))).map(|(i, _)| i).collect::<Vec<_>>();
                    if let Some(&k) = at.get(s.below(at.len().max(1))) {
                        let V::Stream(ts, m, c) = pool[k].clone() else { unreachable!() };
                        // what only one side has cannot be passed through text
                        if has_foreign(&ts, c)? || (!c && (has_none(&m) || !comparable(&model::print(&m)))) {
                            continue;
                        }
                        let _ = write!(log, "convert a stream of {}; ", if c { "the compiler" } else { "the fallback" });
                        let p = catch(|| proc_macro::TokenStream::from(ts)).map_err(|p| format!("conversion panicked: {p} after: {log}"))?;
                        let d = snap_models(&psnap(p.clone()));
                        ensure!(model::show_all(&d) == model::show_all(&m), "converted to the compiler's: {} instead of {} after: {log}", model::show(&d), model::show(&m));
                        let back = TokenStream::from(p);
                        let d = model::dump(back.clone());
                        ensure!(model::show_all(&d) == model::show_all(&m), "converted back: {} instead of {} after: {log}", model::show(&d), model::show(&m));
                        pool.push(V::Stream(back, m, true));
                    }
                }
                8 => {
                    // extend a stream by a token
                    let (i, j) = (at(pool, s, |v| matches!(v, V::Stream(..))), at(pool, s, |v| matches!(v, V::Tree(..))));
                    if let (V::Stream(mut ts, mut m, c), V::Tree(t, tm, tc)) = (pool[i].clone(), pool[j].clone()) {
                        cx.nontrivial |= c != tc;
                        let _ = write!(log, "extend {i} by token {j}; ");
                        let punct = matches!(t, TokenTree::Punct(_));
                        let _ = punct;
                        let r = catch(|| ts.extend([t]));
                        if mismatch(r, c && !tc, log)?.is_some() {
                            m.extend(tm);
                        }
                        pool[i] = V::Stream(ts, m, c);
                    }
                }
                9 => {
                    let (i, j) = (at(pool, s, |v| matches!(v, V::Stream(..))), at(pool, s, |v| matches!(v, V::Stream(..))));
                    if let (V::Stream(mut ts, mut m, c), V::Stream(us, um, uc)) = (pool[i].clone(), pool[j].clone()) {
                        cx.nontrivial |= c != uc;
                        let _ = write!(log, "extend {i} by stream {j}; ");
                        let r = catch(|| ts.extend([us]));
                        if mismatch(r, c != uc, log)?.is_some() {
                            m.extend(um);
                        }
                        if m.len() < 60 {
                            pool[i] = V::Stream(ts, m, c);
                        }
                    }
                }
                10 => {
                    let (i, j) = (at(pool, s, |v| matches!(v, V::Stream(..))), at(pool, s, |v| matches!(v, V::Stream(..))));
                    if let (V::Stream(ts, mut m, c), V::Stream(us, um, uc)) = (pool[i].clone(), pool[j].clone()) {
                        cx.nontrivial |= c != uc;
                        let _ = write!(log, "collect {i} {j}; ");
                        let r = catch(|| [ts, us].into_iter().collect::<TokenStream>());
                        if let Some(all) = mismatch(r, c != uc, log)? {
                            m.extend(um);
                            if m.len() < 60 {
                                pool.push(V::Stream(all, m, c));
                            }
                        }
                    }
                }
                11 => {
                    let i = at(pool, s, |v| matches!(v, V::Tree(..)));
                    if let V::Tree(t, m, c) = pool[i].clone() {
                        cx.nontrivial |= c != real;
                        let from = s.chance(1, 2);
                        let _ = write!(log, "stream from token {i}; ");
                        let r = catch(|| if from { TokenStream::from(t) } else { [t].into_iter().collect() });
                        if let Some(ts) = mismatch(r, real && !c, log)? {
                            pool.push(V::Stream(ts, m, real));
                        }
                    }
                }
                12 => {
                    let (i, j) = (at(pool, s, |v| matches!(v, V::Tree(..))), at(pool, s, |v| matches!(v, V::Span(..))));
                    if let (V::Tree(mut t, m, c), V::Span(sp, sc)) = (pool[i].clone(), pool[j].clone()) {
                        cx.nontrivial |= c != sc;
                        let _ = write!(log, "set span of {i} to {j}; ");
                        let punct = matches!(t, TokenTree::Punct(_));
                        let direct = s.chance(1, 2);
                        let r = catch(|| match &mut t {
                            TokenTree::Group(g) if direct => g.set_span(sp),
                            TokenTree::Ident(g) if direct => g.set_span(sp),
                            TokenTree::Literal(g) if direct => g.set_span(sp),
                            TokenTree::Punct(g) if direct => g.set_span(sp),
                            t => t.set_span(sp),
                        });
                        let done = mismatch(r, c != sc && !punct, log)?.is_some();
                        pool[i] = V::Tree(t, m, if done { sc } else { c });
                    }
                }
                13 => {
                    let (i, j) = (at(pool, s, |v| matches!(v, V::Span(..))), at(pool, s, |v| matches!(v, V::Span(..))));
                    if let (V::Span(a, c), V::Span(b, d)) = (pool[i].clone(), pool[j].clone()) {
                        cx.nontrivial |= c != d;
                        let _ = write!(log, "relocate {i} {j}; ");
                        let r = mismatch(catch(|| a.resolved_at(b)), c != d, log)?;
                        if let Some(x) = r {
                            pool.push(V::Span(x, c));
                        }
                        let r = mismatch(catch(|| a.located_at(b)), c != d, log)?;
                        if let Some(x) = r {
                            pool.push(V::Span(x, c));
                        }
                        let r = catch(|| a.join(b)).map_err(|p| format!("join panicked: {p} after: {log}"))?;
                        ensure!(c == d || r.is_none(), "join of spans of different backends gives {r:?} after: {log}");
                        #[cfg(feature = "exempt")]
                        ensure!(c == d || !a.eq(&b), "spans of different backends are equal after: {log}");
                    }
                }
                14 => {
                    let (i, j) = (at(pool, s, |v| matches!(v, V::Tree(TokenTree::Ident(_), ..) | V::Span(..))), at(pool, s, |v| matches!(v, V::Tree(TokenTree::Ident(_), ..) | V::Span(..))));
                    if let (V::Tree(TokenTree::Ident(a), m, c), V::Tree(TokenTree::Ident(b), n, d)) = (pool[i].clone(), pool[j].clone()) {
                        cx.nontrivial |= c != d;
                        let _ = write!(log, "compare {i} {j}; ");
                        let same = model::show_all(&m) == model::show_all(&n);
                        if let Some(x) = mismatch(catch(|| a == b), c != d, log)? {
                            ensure!(x == same, "{a} == {b} is {x} after: {log}");
                        }
                        ensure!(a == b.to_string() || !same, "{a} differs from its text");
                    }
                    if let V::Span(sp, c) = pool[i].clone() {
                        let name = gen::ident_name(s);
                        let _ = write!(log, "identifier {name} at span {i}; ");
                        let id = Ident::new(&name, sp);
                        pool.push(V::Tree(TokenTree::Ident(id), vec![model::plain(Tok::Ident(name, false))], c));
                    }
                }
                _ => {
                    let i = s.below(pool.len());
                    match pool[i].clone() {
                        V::Stream(ts, m, c) => {
                            let d = [Delim::Paren, Delim::Brace, Delim::Bracket, Delim::None][s.below(4)];
                            let _ = write!(log, "group of {i}; ");
                            let g = Group::new(model::delim_to(d), ts);
                            pool.push(V::Tree(TokenTree::Group(g), vec![model::plain(Tok::Group(d, m))], c));
                        }
                        V::Tree(TokenTree::Group(g), m, c) => {
                            let Tok::Group(_, inner) = &m[0].t else { unreachable!() };
                            let _ = write!(log, "open {i}; ");
                            let st = g.stream();
                            for (t, m) in st.clone().into_iter().zip(inner) {
                                if !has_foreign(&st, c)? && pool.len() < 30 {
                                    pool.push(V::Tree(t, vec![m.clone()], c));
                                }
                            }
                            pool.push(V::Stream(st, inner.clone(), c));
                        }
                        _ => {}
                    }
                }
            }
            if pool.len() > 14 {
                let k = s.below(pool.len());
                pool.remove(k);
            }
            if pool.is_empty() {
                pool.push(V::Span(Span::call_site(), real));
            }
        }
        for v in pool.iter() {
            cx.extra += 1;
            verify(v, log)?;
        }
        Ok(())
    }

    /// Does a stream of one backend hold tokens of the other?
    fn has_foreign(ts: &TokenStream, c: bool) -> Result<bool, String> {
        for t in ts.clone() {
            if compilers(t.span())? != c {
                return Ok(true);
            }
            if let TokenTree::Group(g) = t {
                if has_foreign(&g.stream(), c)? {
                    return Ok(true);
                }
            }
        }
        Ok(false)
    }

    const BETWEEN: char = '\u{e000}';

    /// Many texts for one compilation.
    fn texts(s: &mut Src) -> String {
        let mut o = String::new();
        for _ in 0..s.range(40, 120) {
            o.push_str(&match s.below(6) {
                0 => gen::hot(s),
                1 => gen::sloppy(s),
                2 => gen::mutated(s),
                3 => gen::literal(s, true),
                4 => {
                    let l = gen::literal(s, true);
                    gen::mutate(s, &l)
                }
                _ => gen::frags(s),
            });
            o.push(BETWEEN);
        }
        o
    }

    /// In the new process: reads the texts, as the library's user would.
    pub fn read_texts(all: &str) {
        for t in all.split(BETWEEN) {
            let (outside, lit) = forced(|| (TokenStream::from_str(t).is_ok(), Literal::from_str(t).is_ok()));
            // (what only the compiler objects to fails the compilation)
            assert!(outside || TokenStream::from_str(t).is_err(), "{} is accepted inside", short(t));
            assert!(lit || Literal::from_str(t).is_err(), "{} is accepted as a literal inside", short(t));
        }
    }

    /// A rejected text must not fail the compilation the macro runs in.
    /// Non-trivial: at least one text is rejected.
    fn check_compiles(all: &str, cx: &mut Cx) -> R {
        use std::io::Write as _;
        cx.nontrivial = all.split(BETWEEN).any(|t| forced(|| TokenStream::from_str(t).is_err()));
        cx.extra += all.split(BETWEEN).count() as u64;
        let exe = std::env::current_exe().map_err(|e| e.to_string())?;
        let made = std::env::temp_dir().join(format!("vpm-texts-{}.rmeta", std::process::id()));
        let mut args: Vec<std::ffi::OsString> = std::env::args_os().skip(1).collect();
        if let Some(k) = args.iter().position(|a| a == "-o") {
            args[k + 1] = made.clone().into();
        }
        let mut child = std::process::Command::new(exe)
            .args(args)
            .env("VH_ARGS", "texts")
            .stdin(std::process::Stdio::piped())
            .stdout(std::process::Stdio::null())
            .stderr(std::process::Stdio::piped())
            .spawn()
            .map_err(|e| e.to_string())?;
        let _ = child.stdin.take().map(|mut i| i.write_all(all.as_bytes()));
        let out = child.wait_with_output().map_err(|e| e.to_string())?;
        let _ = std::fs::remove_file(made);
        ensure!(
            out.status.success(),
            "parsing {} inside a macro fails the compilation: {}",
            short(&all.replace(BETWEEN, " | ")),
            short(&String::from_utf8_lossy(&out.stderr))
        );
        Ok(())
    }

    /// The macro is run once more in a new compiler process.
    fn check_first(t: &str, cx: &mut Cx) -> R {
        cx.nontrivial = true;
        let exe = std::env::current_exe().map_err(|e| e.to_string())?;
        let out = std::process::Command::new(exe)
            .args(std::env::args_os().skip(1))
            .env("VH_ARGS", format!("fresh\x1f{t}"))
            .output()
            .map_err(|e| e.to_string())?;
        let got = String::from_utf8_lossy(&out.stdout).into_owned();
        ensure!(
            out.status.success() && got == "ok\n",
            "first call {t} of a process inside a macro: {}: {got}{}",
            out.status,
            String::from_utf8_lossy(&out.stderr)
        );
        Ok(())
    }

    pub fn c18_inside(env: Env) -> Vec<Phase> {
        vec![
            indexed("first-use", if env.thorough { 240 } else { 24 }, |i| Some(i.to_string()), check_first),
            tape("backends", env.n(60_000), check_backends),
        ]
    }
}

// ---------------------------------------------------------------- outside

/// Forcing or not makes no difference. Non-trivial: 200 bytes observed.
#[cfg(not(feature = "pm"))]
fn check_toggles(s: &mut Src, cx: &mut Cx) -> R {
    let n = s.range(8, 300);
    let tape: Vec<u64> = (0..n).map(|_| s.u64()).collect();
    reset();
    let want = obs::history(&tape, true, &mut |_| {});
    reset();
    let got = obs::history(&tape, true, &mut |f| {
        if f {
            proc_macro2::fallback::force();
        } else {
            proc_macro2::fallback::unforce();
        }
    });
    cx.nontrivial = want.len() >= 200;
    if cx.want_sample {
        cx.sample = Some(want.chars().take(300).collect());
    }
    ensure!(got == want, "forcing the fallback outside a macro changed what is observed:\n{got}\ninstead of\n{want}");
    for sp in [Span::call_site(), Span::mixed_site(), Literal::u8_suffixed(1).span(), Punct::new('+', Spacing::Joint).span()] {
        ensure!(!compilers(sp)?, "outside a macro a span is the compiler's");
    }
    Ok(())
}

/// The first call in a new process, whatever it is, works.
#[cfg(not(feature = "pm"))]
fn check_fresh(t: &str, cx: &mut Cx) -> R {
    cx.nontrivial = true;
    let exe = std::env::current_exe().map_err(|e| e.to_string())?;
    let out = std::process::Command::new(exe)
        .args(["fresh", t])
        .output()
        .map_err(|e| e.to_string())?;
    let got = String::from_utf8_lossy(&out.stdout).into_owned();
    ensure!(
        out.status.success() && got == "ok\n",
        "first call {t} of a process outside a macro: {}: {got}{}",
        out.status,
        String::from_utf8_lossy(&out.stderr)
    );
    Ok(())
}

/// Run by the child of `check_fresh`.
#[cfg(not(feature = "pm"))]
pub fn fresh(which: &str) -> Result<(), String> {
    let k: usize = which.parse().unwrap_or(0);
    let spot = catch(|| match k % 12 {
        0 => Span::call_site(),
        1 => Literal::u8_suffixed(1).span(),
        2 => TokenStream::from_str("a b").unwrap().into_iter().next().unwrap().span(),
        3 => Group::new(Delimiter::Parenthesis, TokenStream::new()).span(),
        4 => Punct::new('+', Spacing::Alone).span(),
        5 => Literal::from_str("1").unwrap().span(),
        6 => Group::new(Delimiter::Brace, Vec::<TokenTree>::new().into_iter().collect()).span(),
        7 => {
            proc_macro2::fallback::force();
            Span::mixed_site()
        }
        8 => {
            proc_macro2::fallback::unforce();
            Ident::new("a", Span::call_site()).span()
        }
        9 => {
            // several threads at once
            let hs: Vec<_> = (0..8)
                .map(|i| {
                    std::thread::spawn(move || {
                        if i % 3 == 0 {
                            proc_macro2::fallback::force();
                        } else if i % 3 == 1 {
                            proc_macro2::fallback::unforce();
                        }
                        let t: TokenStream = "x ( y ) -1".parse().unwrap();
                        t.to_string()
                    })
                })
                .collect();
            for h in hs {
                assert_eq!(h.join().unwrap(), "x (y) - 1");
            }
            Span::call_site()
        }
        10 => {
            let e = TokenStream::from_str("(").unwrap_err();
            assert_eq!(e.to_string(), "cannot parse string into token stream");
            e.span()
        }
        _ => {
            let t: TokenStream = [TokenTree::from(Literal::i8_unsuffixed(-5))].into_iter().collect();
            assert_eq!(t.to_string(), "- 5");
            t.into_iter().next().unwrap().span()
        }
    })?;
    if compilers(spot)? {
        return Err("a span outside a macro is the compiler's".to_owned());
    }
    let t: TokenStream = "a + ( b , 'c' ) r#d".parse().map_err(|e| format!("{e}"))?;
    if t.to_string() != "a + (b , 'c') r#d" {
        return Err(format!("prints as {t}"));
    }
    Ok(())
}

/// Threads that force and unforce while others work.
#[cfg(not(feature = "pm"))]
fn check_threads(s: &mut Src, cx: &mut Cx) -> R {
    cx.nontrivial = true;
    let tapes: Vec<Vec<u64>> = (0..3)
        .map(|_| {
            let n = s.range(8, 120);
            (0..n).map(|_| s.u64()).collect()
        })
        .collect();
    let want: Vec<String> = tapes
        .iter()
        .map(|t| {
            reset();
            obs::history(t, true, &mut |_| {})
        })
        .collect();
    let stop = std::sync::atomic::AtomicBool::new(false);
    let got = std::thread::scope(|sc| {
        let stop = &stop;
        let toggler = sc.spawn(move || {
            let mut n = 0u64;
            while !stop.load(std::sync::atomic::Ordering::Relaxed) {
                proc_macro2::fallback::force();
                proc_macro2::fallback::unforce();
                n += 1;
            }
            n
        });
        let hs: Vec<_> = tapes.iter().map(|t| sc.spawn(move || catch(|| obs::history(t, true, &mut |_| {})))).collect();
        let r: Vec<Result<String, String>> = hs.into_iter().map(|h| h.join().unwrap()).collect();
        stop.store(true, std::sync::atomic::Ordering::Relaxed);
        let _ = toggler.join();
        r
    });
    for (g, w) in got.iter().zip(&want) {
        ensure!(g.as_ref() == Ok(w), "while another thread forces and unforces the fallback: {g:?} instead of {w:?}");
    }
    Ok(())
}

pub fn c18(env: Env) -> Vec<Phase> {
    #[cfg(feature = "pm")]
    return c18_inside(env);
    #[cfg(not(feature = "pm"))]
    vec![
        tape("toggles", env.n(40_000), check_toggles),
        tape("threads", env.n(600), check_threads),
        indexed("fresh-process", if env.thorough { 600 } else { 72 }, |i| Some(i.to_string()), check_fresh),
    ]
}
