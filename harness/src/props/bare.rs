//! C18 inside a procedural macro where the library works by itself (the
//! semver-exempt interface on a stable compiler): the conversions to and from
//! the compiler's tokens go through text.

use super::common::*;
use super::native::{comparable, has_none};
use super::Env;
use crate::engine::*;
use crate::ensure;
use crate::gen;
use crate::model;
use crate::pmspans;
use crate::reflex;
use crate::reflex::{Delim, Tok, TT};
use proc_macro2::TokenStream;
use std::str::FromStr;

extern crate proc_macro;

fn compilers(ts: proc_macro::TokenStream) -> Vec<TT> {
    ts.into_iter()
        .map(|t| {
            model::plain(match t {
                proc_macro::TokenTree::Group(g) => Tok::Group(
                    match g.delimiter() {
                        proc_macro::Delimiter::Parenthesis => Delim::Paren,
                        proc_macro::Delimiter::Brace => Delim::Brace,
                        proc_macro::Delimiter::Bracket => Delim::Bracket,
                        proc_macro::Delimiter::None => Delim::None,
                    },
                    compilers(g.stream()),
                ),
                proc_macro::TokenTree::Ident(i) => {
                    let i = i.to_string();
                    match i.strip_prefix("r#") {
                        Some(n) => Tok::Ident(n.to_owned(), true),
                        None => Tok::Ident(i, false),
                    }
                }
                proc_macro::TokenTree::Punct(p) => Tok::Punct(p.as_char(), p.spacing() == proc_macro::Spacing::Joint),
                proc_macro::TokenTree::Literal(l) => Tok::Lit(l.to_string()),
            })
        })
        .collect()
}

/// The compiler's text of a stream need not give all its tokens back
/// (`1 .` is printed as `1.`): nothing to compare then.
fn lossless(p: &proc_macro::TokenStream, m: &[TT]) -> bool {
    let c: Vec<char> = p.to_string().chars().collect();
    match reflex::Lexer::new(&c).stream() {
        Ok(got) => model::show_all(&got) == model::show_all(m),
        Err(_) => false,
    }
}

fn equal(what: &str, got: &[TT], want: &[TT]) -> R {
    ensure!(model::show_all(got) == model::show_all(want), "{what}: {} instead of {}", model::show(got), model::show(want));
    Ok(())
}

/// There and back. Non-trivial: at least two tokens.
fn both_ways(m: &[TT], ts: TokenStream, cx: &mut Cx) -> R {
    cx.nontrivial = model::count(m) > 1;
    let p = catch(|| proc_macro::TokenStream::from(ts.clone())).map_err(|p| format!("conversion of {} panicked: {p}", model::show(m)))?;
    equal("converted to the compiler's", &compilers(p.clone()), m)?;
    if !lossless(&p, m) {
        cx.label("printed otherwise by the compiler");
        return Ok(());
    }
    let back = catch(|| TokenStream::from(p.clone())).map_err(|p| format!("conversion back of {} panicked: {p}", model::show(m)))?;
    equal("converted back", &model::dump(back.clone()), m)?;
    ensure!(back.is_empty() == m.is_empty(), "emptiness of {}", model::show(m));
    equal("the original, afterwards,", &model::dump(ts), m)?;
    let mut twice = back;
    twice.extend([TokenStream::from(p)]);
    let mut mm = m.to_vec();
    mm.extend_from_slice(m);
    equal("extended by itself", &model::dump(twice), &mm)
}

fn check_built(s: &mut Src, cx: &mut Cx) -> R {
    built(gen::model(s, 2, 8), s, cx)
}

fn check_long(s: &mut Src, cx: &mut Cx) -> R {
    built(gen::model(s, 3, 200), s, cx)
}

fn built(m: Vec<TT>, s: &mut Src, cx: &mut Cx) -> R {
    let text = model::print(&m);
    if has_none(&m) || !comparable(&text) {
        return Ok(());
    }
    if cx.want_sample {
        cx.sample = Some(text.clone());
    }
    match s.below(3) {
        0 => proc_macro2::fallback::force(),
        1 => proc_macro2::fallback::unforce(),
        _ => {}
    }
    let ts = if s.chance(1, 3) {
        TokenStream::from_str(&text).map_err(|e| format!("{text:?} is rejected: {e}"))?
    } else {
        let spans = model::some_spans(s);
        model::build_stream(&m, s, &spans)
    };
    both_ways(&m, ts, cx)
}

/// Parts of the macro's own input.
fn check_input(s: &mut Src, cx: &mut Cx) -> R {
    let mut p: Vec<proc_macro::TokenTree> = pmspans::raw_input().into_iter().collect();
    let a = s.below(p.len());
    let b = s.range(a, p.len());
    p.drain(b..);
    p.drain(..a);
    let p: proc_macro::TokenStream = p.into_iter().collect();
    let m = compilers(p.clone());
    if has_none(&m) || !comparable(&model::print(&m)) {
        return Ok(());
    }
    if cx.want_sample {
        cx.sample = Some(model::show(&m));
    }
    if !lossless(&p, &m) {
        return Ok(());
    }
    let ts = catch(|| TokenStream::from(p)).map_err(|p| format!("conversion of {} panicked: {p}", model::show(&m)))?;
    equal("converted from the compiler's", &model::dump(ts.clone()), &m)?;
    both_ways(&m, ts, cx)
}

pub fn c18(env: Env) -> Vec<Phase> {
    vec![
        tape("converted", env.n(20_000), check_built),
        tape("converted-long", env.n(600), check_long),
        tape("converted-input", env.n(3_000), check_input),
    ]
}
