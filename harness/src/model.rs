//! Bridge between proc-macro2 values and the reference token model.

use crate::engine::Src;
use crate::reflex::{Delim, Lexer, Tok, DOC_MARK, TT};
use crate::refval::{self, Val};
use proc_macro2::{Delimiter, Group, Ident, Literal, Punct, Spacing, Span, TokenStream, TokenTree};
use std::fmt::Write as _;

pub fn delim_of(d: Delimiter) -> Delim {
    match d {
        Delimiter::Parenthesis => Delim::Paren,
        Delimiter::Brace => Delim::Brace,
        Delimiter::Bracket => Delim::Bracket,
        Delimiter::None => Delim::None,
    }
}

pub fn delim_to(d: Delim) -> Delimiter {
    match d {
        Delim::Paren => Delimiter::Parenthesis,
        Delim::Brace => Delimiter::Brace,
        Delim::Bracket => Delimiter::Bracket,
        Delim::None => Delimiter::None,
    }
}

/// (text without r#, raw)
pub fn ident_parts(i: &Ident) -> (String, bool) {
    let s = i.to_string();
    match s.strip_prefix("r#") {
        Some(t) => (t.to_owned(), true),
        None => (s, false),
    }
}

pub fn dump(ts: TokenStream) -> Vec<TT> {
    ts.into_iter().map(|t| dump_tree(&t)).collect()
}

pub fn dump_tree(t: &TokenTree) -> TT {
    let t = match t {
        TokenTree::Group(g) => Tok::Group(delim_of(g.delimiter()), dump(g.stream())),
        TokenTree::Ident(i) => {
            let (s, raw) = ident_parts(i);
            Tok::Ident(s, raw)
        }
        TokenTree::Punct(p) => Tok::Punct(p.as_char(), p.spacing() == Spacing::Joint),
        TokenTree::Literal(l) => Tok::Lit(l.to_string()),
    };
    TT {
        t,
        lo: 0,
        hi: 0,
        cr: false,
    }
}

pub fn plain(t: Tok) -> TT {
    TT {
        t,
        lo: 0,
        hi: 0,
        cr: false,
    }
}

pub fn show(ts: &[TT]) -> String {
    let mut s = String::new();
    show_into(ts, &mut s);
    s
}

/// Unabridged, unambiguous.
pub fn show_all(ts: &[TT]) -> String {
    let mut s = String::new();
    for t in ts {
        match &t.t {
            Tok::Group(d, i) => {
                let _ = write!(s, "G{d:?}[{}]", show_all(i));
            }
            other => {
                let _ = write!(s, "{other:?};");
            }
        }
    }
    s
}

fn show_into(ts: &[TT], s: &mut String) {
    for t in ts {
        if s.len() > 1500 {
            s.push_str(" ...");
            return;
        }
        if !s.is_empty() {
            s.push(' ');
        }
        match &t.t {
            Tok::Group(d, inner) => {
                let (a, b) = match d {
                    Delim::Paren => ("Group(", ")"),
                    Delim::Brace => ("Group{", "}"),
                    Delim::Bracket => ("Group[", "]"),
                    Delim::None => ("Group<", ">"),
                };
                s.push_str(a);
                show_into(inner, s);
                s.push_str(b);
            }
            Tok::Ident(n, raw) => {
                let _ = write!(s, "Ident({}{n})", if *raw { "r#" } else { "" });
            }
            Tok::Punct(c, j) => {
                let _ = write!(s, "Punct({c:?},{})", if *j { "Joint" } else { "Alone" });
            }
            Tok::Lit(l) => match l.strip_prefix(DOC_MARK) {
                Some(d) => {
                    let _ = write!(s, "Literal(any string denoting {d:?})");
                }
                None => {
                    let _ = write!(s, "Literal({l:?})");
                }
            },
        }
    }
}

/// Literal text against the reference token's text.
fn lit_ok(got: &str, want: &str) -> bool {
    match want.strip_prefix(DOC_MARK) {
        None => got == want,
        Some(doc) => {
            let c: Vec<char> = got.chars().collect();
            if Lexer::new(&c).literal_end(0) != Some(c.len()) {
                return false;
            }
            match refval::decode(got) {
                Some(d) => d.suffix.is_empty() && d.val == Val::Str(doc.to_owned()),
                None => false,
            }
        }
    }
}

/// `Ok` if the stream holds exactly the reference tokens (spans aside).
pub fn same(ts: TokenStream, want: &[TT]) -> bool {
    let mut n = 0;
    for t in ts {
        let Some(w) = want.get(n) else {
            return false;
        };
        n += 1;
        let ok = match (&t, &w.t) {
            (TokenTree::Group(g), Tok::Group(d, inner)) => {
                delim_of(g.delimiter()) == *d && same(g.stream(), inner)
            }
            (TokenTree::Ident(i), Tok::Ident(s, raw)) => {
                let t = i.to_string();
                if *raw {
                    t.strip_prefix("r#") == Some(s)
                } else {
                    t == *s
                }
            }
            (TokenTree::Punct(p), Tok::Punct(c, j)) => {
                p.as_char() == *c && (p.spacing() == Spacing::Joint) == *j
            }
            (TokenTree::Literal(l), Tok::Lit(s)) => lit_ok(&l.to_string(), s),
            _ => false,
        };
        if !ok {
            return false;
        }
    }
    n == want.len()
}

/// Model equality where `want` may contain doc marks.
pub fn model_same(got: &[TT], want: &[TT]) -> bool {
    got.len() == want.len()
        && got.iter().zip(want).all(|(a, b)| match (&a.t, &b.t) {
            (Tok::Group(d, x), Tok::Group(e, y)) => d == e && model_same(x, y),
            (Tok::Lit(x), Tok::Lit(y)) => lit_ok(x, y),
            (x, y) => x == y,
        })
}

pub fn count(ts: &[TT]) -> usize {
    ts.iter()
        .map(|t| match &t.t {
            Tok::Group(_, i) => 1 + count(i),
            _ => 1,
        })
        .sum()
}

/// Canonical printed form (outside a macro).
pub fn print(ts: &[TT]) -> String {
    let mut s = String::new();
    print_into(ts, &mut s);
    s
}

pub fn print_into(ts: &[TT], s: &mut String) {
    let mut sep = false;
    for t in ts {
        if sep {
            s.push(' ');
        }
        sep = true;
        match &t.t {
            Tok::Group(d, inner) => {
                match d {
                    Delim::Paren => s.push('('),
                    Delim::Bracket => s.push('['),
                    Delim::Brace => s.push_str("{ "),
                    Delim::None => {}
                }
                print_into(inner, s);
                match d {
                    Delim::Paren => s.push(')'),
                    Delim::Bracket => s.push(']'),
                    Delim::Brace => s.push_str(if inner.is_empty() { "}" } else { " }" }),
                    Delim::None => {}
                }
            }
            Tok::Ident(n, raw) => {
                if *raw {
                    s.push_str("r#");
                }
                s.push_str(n);
            }
            Tok::Punct(c, j) => {
                s.push(*c);
                sep = !*j;
            }
            Tok::Lit(l) => s.push_str(l),
        }
    }
}

/// Builds the proc-macro2 token for a model token through the public API.
pub fn build_tree(t: &TT) -> TokenTree {
    match &t.t {
        Tok::Group(d, inner) => {
            TokenTree::Group(Group::new(delim_to(*d), inner.iter().map(build_tree).collect()))
        }
        Tok::Ident(s, raw) => TokenTree::Ident(if *raw {
            Ident::new_raw(s, Span::call_site())
        } else {
            Ident::new(s, Span::call_site())
        }),
        Tok::Punct(c, j) => TokenTree::Punct(Punct::new(*c, if *j { Spacing::Joint } else { Spacing::Alone })),
        Tok::Lit(s) => TokenTree::Literal(s.parse::<Literal>().expect("literal from valid text")),
    }
}

// ------------------------------------------------------------ building

/// Negative literals appear in a stream as a minus and a positive literal.
pub fn split_negative(ts: &[TT]) -> Vec<TT> {
    let mut out = Vec::new();
    for t in ts {
        match &t.t {
            Tok::Group(d, i) => out.push(TT {
                t: Tok::Group(*d, split_negative(i)),
                ..t.clone()
            }),
            Tok::Lit(l) if l.starts_with('-') => {
                out.push(TT {
                    t: Tok::Punct('-', false),
                    ..t.clone()
                });
                out.push(TT {
                    t: Tok::Lit(l[1..].to_owned()),
                    ..t.clone()
                });
            }
            _ => out.push(t.clone()),
        }
    }
    out
}

/// Builds one token, choosing among equivalent routes and spans.
pub fn build_one(t: &TT, s: &mut Src, spans: &[Span]) -> TokenTree {
    let mut tree = match &t.t {
        Tok::Group(d, inner) => {
            let st = build_stream(inner, s, spans);
            let g = Group::new(delim_to(*d), st);
            TokenTree::from(g)
        }
        Tok::Ident(n, raw) => {
            let sp = *s.pick(spans);
            TokenTree::from(if *raw { Ident::new_raw(n, sp) } else { Ident::new(n, sp) })
        }
        Tok::Punct(c, j) => TokenTree::from(Punct::new(*c, if *j { Spacing::Joint } else { Spacing::Alone })),
        // (the second way is that of the `quote` crate)
        Tok::Lit(l) if s.chance(1, 4) => TokenTree::from(unsafe { Literal::from_str_unchecked(l) }),
        Tok::Lit(l) => TokenTree::from(l.parse::<Literal>().expect("literal from valid text")),
    };
    if s.chance(1, 3) {
        tree.set_span(*s.pick(spans));
    }
    if s.chance(1, 8) {
        tree = tree.clone();
    }
    tree
}

/// Builds a stream from a model through a random mixture of the public ways.
pub fn build_stream(ts: &[TT], s: &mut Src, spans: &[Span]) -> TokenStream {
    match s.below(7) {
        0 => {
            let v: Vec<TokenTree> = ts.iter().map(|t| build_one(t, s, spans)).collect();
            v.into_iter().collect()
        }
        1 => {
            let mut out = TokenStream::new();
            for t in ts {
                out.extend([build_one(t, s, spans)]);
            }
            out
        }
        2 => {
            let v: Vec<TokenStream> = ts.iter().map(|t| TokenStream::from(build_one(t, s, spans))).collect();
            v.into_iter().collect()
        }
        3 => {
            // halves, the second extended as a stream, old clones kept alive
            let k = s.below(ts.len() + 1);
            let mut out = build_stream_flat(&ts[..k], s, spans);
            let keep = out.clone();
            let tail = build_stream_flat(&ts[k..], s, spans);
            let keep2 = tail.clone();
            out.extend([tail]);
            drop(keep);
            drop(keep2);
            out
        }
        4 => {
            // taken apart and put together again
            let st = build_stream_flat(ts, s, spans);
            let keep = if s.chance(1, 2) { Some(st.clone()) } else { None };
            let mut it = st.into_iter();
            let mut out = TokenStream::default();
            for _ in 0..s.below(ts.len() + 1) {
                out.extend(it.next());
            }
            out.extend(it);
            drop(keep);
            out
        }
        5 => {
            // single-kind extends
            let mut out = TokenStream::new();
            for t in ts {
                match build_one(t, s, spans) {
                    TokenTree::Group(g) => out.extend([g]),
                    TokenTree::Ident(i) => out.extend([i]),
                    TokenTree::Punct(p) => out.extend([p]),
                    TokenTree::Literal(l) => out.extend([l]),
                }
            }
            out
        }
        _ => {
            let st = build_stream_flat(ts, s, spans);
            let mut out = TokenStream::new();
            out.extend([TokenStream::new(), st, TokenStream::new()]);
            out.clone()
        }
    }
}

fn build_stream_flat(ts: &[TT], s: &mut Src, spans: &[Span]) -> TokenStream {
    let v: Vec<TokenTree> = ts.iter().map(|t| build_one(t, s, spans)).collect();
    v.into_iter().collect()
}

/// Spans to choose from: the call site and, with locations, parsed ones.
pub fn some_spans(s: &mut Src) -> Vec<Span> {
    let mut v = vec![Span::call_site()];
    if s.chance(1, 2) {
        let _ = s.below(2);
        if let Ok(ts) = "fn é ( 日 , \"本\" )".parse::<TokenStream>() {
            for t in ts {
                v.push(t.span());
                if let TokenTree::Group(g) = t {
                    v.push(g.span_open());
                    v.push(g.span_close());
                    for t in g.stream() {
                        v.push(t.span());
                    }
                }
            }
        }
        v.push(Span::mixed_site());
    }
    v
}
