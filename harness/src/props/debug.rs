//! C19 debug output, against a renderer written from the documented form
//! that reads tokens only through their accessors.

use super::common::*;
use super::Env;
use crate::engine::*;
use crate::ensure;
use crate::gen;
use crate::model;
use crate::obs::at_call_site;
use proc_macro2::{Delimiter, Group, Literal, Punct, Spacing, Span, TokenStream, TokenTree};
use std::fmt::{self, Debug, DebugStruct};
use std::str::FromStr;

fn span_field(d: &mut DebugStruct, s: Span) {
    #[cfg(feature = "spans")]
    {
        let call = s.source_text().is_none() && s.byte_range() == (0..0);
        if !call {
            d.field("span", &s);
        }
    }
    #[cfg(not(feature = "spans"))]
    let _ = (d, s);
}

struct RStream<'a>(&'a [TokenTree]);
struct RTree<'a>(&'a TokenTree);
struct RGroup<'a>(&'a Group);
struct RPunct<'a>(&'a Punct);
struct RLit<'a>(&'a Literal);
struct RDelim(Delimiter);

impl Debug for RDelim {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(match self.0 {
            Delimiter::Parenthesis => "Parenthesis",
            Delimiter::Brace => "Brace",
            Delimiter::Bracket => "Bracket",
            Delimiter::None => "None",
        })
    }
}

impl Debug for RStream<'_> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("TokenStream ")?;
        f.debug_list().entries(self.0.iter().map(RTree)).finish()
    }
}

impl Debug for RGroup<'_> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        let v: Vec<TokenTree> = self.0.stream().into_iter().collect();
        let mut d = f.debug_struct("Group");
        d.field("delimiter", &RDelim(self.0.delimiter()));
        d.field("stream", &RStream(&v));
        span_field(&mut d, self.0.span());
        d.finish()
    }
}

impl Debug for RPunct<'_> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        let mut d = f.debug_struct("Punct");
        d.field("char", &self.0.as_char());
        d.field(
            "spacing",
            &format_args!(
                "{}",
                match self.0.spacing() {
                    Spacing::Joint => "Joint",
                    Spacing::Alone => "Alone",
                }
            ),
        );
        span_field(&mut d, self.0.span());
        d.finish()
    }
}

impl Debug for RLit<'_> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        let mut d = f.debug_struct("Literal");
        let t = self.0.to_string();
        d.field("lit", &format_args!("{t}"));
        span_field(&mut d, self.0.span());
        d.finish()
    }
}

impl Debug for RTree<'_> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self.0 {
            TokenTree::Group(g) => RGroup(g).fmt(f),
            TokenTree::Ident(i) => {
                let t = i.to_string();
                let mut d = f.debug_struct("Ident");
                d.field("sym", &format_args!("{t}"));
                span_field(&mut d, i.span());
                d.finish()
            }
            TokenTree::Punct(p) => RPunct(p).fmt(f),
            TokenTree::Literal(l) => RLit(l).fmt(f),
        }
    }
}

fn both<A: Debug, B: Debug>(what: &str, got: &A, want: &B) -> R {
    let (g, w) = (format!("{got:?}"), format!("{want:?}"));
    ensure!(g == w, "{what} has debug form {} instead of {}", short(&g), short(&w));
    // the pretty form of deeply nested values takes cubic time
    let mut depth = 0i64;
    let deepest = g.bytes().map(|b| {
        depth += i64::from(b == b'[') - i64::from(b == b']');
        depth
    });
    if deepest.max().unwrap_or(0) > 40 {
        return Ok(());
    }
    let (g, w) = (format!("{got:#?}"), format!("{want:#?}"));
    ensure!(g == w, "{what} has pretty debug form {} instead of {}", short(&g), short(&w));
    Ok(())
}

fn check_stream(ts: &TokenStream, cx: &mut Cx, deep: usize) -> R {
    let v: Vec<TokenTree> = ts.clone().into_iter().collect();
    both("a stream", ts, &RStream(&v))?;
    for t in v.iter().take(12) {
        cx.extra += 1;
        both("a token tree", t, &RTree(t))?;
        match t {
            TokenTree::Group(g) => {
                both("a group", g, &RGroup(g))?;
                if deep > 0 {
                    check_stream(&g.stream(), cx, deep - 1)?;
                }
            }
            TokenTree::Ident(i) => {
                if cfg!(feature = "spans") {
                    both("an identifier", i, &RTree(t))?;
                } else {
                    let d = format!("{i:?}");
                    let w = format!("Ident({i})");
                    ensure!(d == w, "an identifier has debug form {d:?} instead of {w:?}");
                    let d = format!("{i:#?}");
                    let w = format!("Ident(\n    {i},\n)");
                    ensure!(d == w, "an identifier has pretty debug form {d:?} instead of {w:?}");
                }
            }
            TokenTree::Punct(p) => both("a punctuation", p, &RPunct(p))?,
            TokenTree::Literal(l) => both("a literal", l, &RLit(l))?,
        }
    }
    // iterators show what is left, and keep it
    let mut it = ts.clone().into_iter();
    let n = v.len();
    let stops = [0, n / 2, n];
    let mut at = 0;
    for stop in stops {
        while at < stop {
            it.next();
            at += 1;
        }
        both("an iterator", &it, &RStream(&v[at..]))?;
        let left: Vec<String> = it.clone().map(|t| t.to_string()).collect();
        let want: Vec<String> = v[at..].iter().map(|t| t.to_string()).collect();
        ensure!(left == want, "after printing, an iterator yields {left:?} instead of {want:?}");
    }
    let again: Vec<String> = ts.clone().into_iter().map(|t| t.to_string()).collect();
    let want: Vec<String> = v.iter().map(|t| t.to_string()).collect();
    ensure!(again == want, "debug printing changed a stream");
    Ok(())
}

/// In one text, spans of different regions have different debug forms.
#[cfg(feature = "spans")]
fn check_spans(ts: &TokenStream) -> R {
    let mut seen = std::collections::HashMap::new();
    let mut todo = vec![ts.clone()];
    while let Some(ts) = todo.pop() {
        for t in ts.into_iter().take(40) {
            let mut spans = vec![t.span()];
            if let TokenTree::Group(g) = &t {
                spans.extend([g.span_open(), g.span_close()]);
                todo.push(g.stream());
            }
            for sp in spans {
                let d = format!("{sp:?}");
                let r = sp.byte_range();
                let w = seen.entry(d.clone()).or_insert_with(|| r.clone());
                ensure!(*w == r, "spans of bytes {w:?} and {r:?} have the same debug form {d}");
            }
        }
        if seen.len() > 200 {
            break;
        }
    }
    Ok(())
}

/// Non-trivial: at least two tokens.
fn check_text(t: &str, cx: &mut Cx) -> R {
    let Ok(ts) = TokenStream::from_str(t) else {
        cx.label("rejected");
        return Ok(());
    };
    cx.nontrivial = ts.clone().into_iter().nth(1).is_some();
    #[cfg(feature = "spans")]
    check_spans(&ts)?;
    check_stream(&ts, cx, 3)
}

fn check_built(s: &mut Src, cx: &mut Cx) -> R {
    let m = gen::wild_model(s, 3, 10);
    cx.nontrivial = model::count(&m) >= 2;
    if cx.want_sample {
        cx.sample = Some(model::show(&m));
    }
    let spans = super::tokens::distinct_spans();
    let ts = model::build_stream(&m, s, &spans);
    check_stream(&ts, cx, 3)?;
    // another sequence, another debug form
    let want = model::split_negative(&m);
    let m2 = if s.chance(1, 2) { gen::wild_model(s, 2, 6) } else { alter(&want, s) };
    let w2 = model::split_negative(&m2);
    let a = at_call_site(want.iter().map(model::build_tree).collect());
    let b = at_call_site(w2.iter().map(model::build_tree).collect());
    let same = model::show_all(&want) == model::show_all(&w2);
    ensure!(
        (format!("{a:?}") == format!("{b:?}")) == same,
        "{} and {} {} debug form",
        model::show(&want),
        model::show(&w2),
        if same { "differ in their" } else { "have the same" }
    );
    Ok(())
}

/// a slightly different token sequence
fn alter(m: &[crate::reflex::TT], s: &mut Src) -> Vec<crate::reflex::TT> {
    use crate::reflex::{Delim, Tok};
    let mut v = m.to_vec();
    if v.is_empty() {
        return v;
    }
    let k = s.below(v.len());
    match &mut v[k].t {
        Tok::Group(d, i) => {
            if s.chance(1, 2) {
                *i = alter(i, s);
            } else {
                *d = [Delim::Paren, Delim::Brace, Delim::Bracket, Delim::None][s.below(4)];
            }
        }
        Tok::Punct(c, j) => {
            if *c != '\'' && s.chance(1, 2) {
                *j = !*j;
            } else {
                *c = '+';
            }
        }
        Tok::Ident(_, raw) => {
            if *raw {
                *raw = false;
            } else if s.chance(1, 2) {
                let e = v[k].clone();
                v.push(e);
            } else {
                v.remove(k);
            }
        }
        Tok::Lit(_) => {
            v.remove(k);
        }
    }
    v
}

pub fn c19(env: Env) -> Vec<Phase> {
    let check = check_text;
    vec![
        tape("constructed", env.n(60_000), check_built),
        text("tokens", env.n(40_000), gen::tokens, check),
        text("sloppy", env.n(60_000), gen::sloppy, check),
        text("mutated", env.n(60_000), gen::mutated, check),
        text("fragments", env.n(100_000), gen::frags, check),
        text("hot", env.n(100_000), gen::hot, check),
        real_windows(env.n(10_000), check),
        text("stretched", env.n(4_000), gen::stretched, check),
        enum_frags(2, check),
        pairs(check),
        nesting(260, check),
        words(check),
        boundaries(if env.thorough { 13 } else { 11 }, check),
    ]
}
