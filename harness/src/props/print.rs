//! C05 round trip, C06 canonical printing.

use super::common::*;
use super::Env;
use crate::engine::*;
use crate::ensure;
use crate::gen;
use crate::model;
use crate::reflex::{self, Delim, Tok, TT};
use proc_macro2::{Literal, TokenStream, TokenTree};
use std::str::FromStr;

fn reparse(text: &str, want: &[TT], what: &str) -> R {
    match TokenStream::from_str(text) {
        Ok(ts) => {
            ensure!(
                model::same(ts.clone(), want),
                "{what} prints as {}, which parses back as\n    {}\n  instead of\n    {}",
                short(text),
                model::show(&model::dump(ts)),
                model::show(want)
            );
            Ok(())
        }
        Err(_) => Err(format!("{what} ({}) prints as {}, which does not parse", model::show(want), short(text))),
    }
}

fn alone(t: &TT) -> Option<TT> {
    let mut t = t.clone();
    match &mut t.t {
        Tok::Punct('\'', _) => return None,
        Tok::Punct(_, j) => *j = false,
        Tok::Group(Delim::None, _) => return None,
        _ => {}
    }
    Some(t)
}

/// every token printed by itself
fn singles(ts: TokenStream, budget: &mut usize, cx: &mut Cx) -> R {
    for t in ts {
        if *budget == 0 {
            return Ok(());
        }
        *budget -= 1;
        let m = model::dump_tree(&t);
        let Some(w) = alone(&m) else {
            continue;
        };
        cx.extra += 1;
        let want = [w];
        reparse(&t.to_string(), &want, "the token tree")?;
        match &t {
            TokenTree::Group(g) => {
                reparse(&g.to_string(), &want, "the group")?;
                let Tok::Group(_, inner) = &want[0].t else {
                    return Err("group".to_owned());
                };
                reparse(&g.stream().to_string(), inner, "the group's stream")?;
                singles(g.stream(), budget, cx)?;
            }
            TokenTree::Ident(i) => reparse(&i.to_string(), &want, "the identifier")?,
            TokenTree::Punct(p) => reparse(&p.to_string(), &want, "the punctuation")?,
            TokenTree::Literal(l) => {
                reparse(&l.to_string(), &want, "the literal")?;
                let text = l.to_string();
                if text != "(/*ERROR*/)" {
                    match Literal::from_str(&text) {
                        Ok(l2) => ensure!(l2.to_string() == text, "literal {} parses back as {}", short(&text), short(&l2.to_string())),
                        Err(_) => return Err(format!("literal {} does not parse back as a literal", short(&text))),
                    }
                }
            }
        }
    }
    Ok(())
}

/// Non-trivial for C05 (text): accepted with at least two tokens.
fn check_text(s: &str, cx: &mut Cx) -> R {
    let Ok(ts) = TokenStream::from_str(s) else {
        cx.label("rejected");
        return Ok(());
    };
    let want = model::dump(ts.clone());
    cx.nontrivial = model::count(&want) >= 2;
    cx.label("accepted");
    reparse(&ts.to_string(), &want, "the stream")?;
    let mut b = 60;
    singles(ts, &mut b, cx)
}

/// Non-trivial for C05 (constructed): at least two tokens.
fn check_built(s: &mut Src, cx: &mut Cx) -> R {
    let m = gen::model(s, 3, 14);
    cx.nontrivial = model::count(&m) >= 2;
    let spans = model::some_spans(s);
    let ts = model::build_stream(&m, s, &spans);
    if cx.want_sample {
        cx.sample = Some(model::show(&m));
    }
    ensure!(model::same(ts.clone(), &m), "a stream built from {} holds {}", model::show(&m), model::show(&model::dump(ts)));
    reparse(&ts.to_string(), &m, "the constructed stream")?;
    let mut b = 40;
    singles(ts, &mut b, cx)
}

/// The same with long names, long literals, or many tokens.
fn check_long_built(s: &mut Src, cx: &mut Cx) -> R {
    let m = gen::model(s, 2, 8);
    let m = gen::lengthen(s, m);
    cx.nontrivial = model::count(&m) >= 2;
    let spans = model::some_spans(s);
    let ts = model::build_stream(&m, s, &spans);
    if cx.want_sample {
        cx.sample = Some(short(&model::show(&m)).to_string());
    }
    ensure!(model::same(ts.clone(), &m), "a stream built from {} holds {}", model::show(&m), model::show(&model::dump(ts)));
    reparse(&ts.to_string(), &m, "the constructed stream")?;
    let mut b = 40;
    singles(ts, &mut b, cx)
}

/// Literals only constructors produce, between other tokens.
fn check_ctor(s: &mut Src, cx: &mut Cx) -> R {
    let n = s.range(1, 4);
    let mut want = Vec::new();
    let mut ts = TokenStream::new();
    for _ in 0..n {
        let l = super::values::random_literal(s);
        let text = l.to_string();
        if text.starts_with('-') {
            continue;
        }
        ts.extend([TokenTree::Literal(l)]);
        want.push(model::plain(Tok::Lit(text)));
        if s.chance(1, 2) {
            let m = gen::model(s, 0, 2);
            ts.extend(m.iter().map(model::build_tree));
            want.extend(m);
        }
    }
    cx.nontrivial = !want.is_empty();
    if cx.want_sample {
        cx.sample = Some(model::show(&want));
    }
    ensure!(model::same(ts.clone(), &want), "a stream built from {} holds {}", model::show(&want), model::show(&model::dump(ts)));
    reparse(&ts.to_string(), &want, "the constructed stream")?;
    let mut b = 20;
    singles(ts, &mut b, cx)
}

pub fn c05(env: Env) -> Vec<Phase> {
    let t = env.thorough;
    let check = check_text;
    vec![
        text("tokens", env.n(150_000), gen::tokens, check),
        text("sloppy", env.n(150_000), gen::sloppy, check),
        text("mutated", env.n(150_000), gen::mutated, check),
        text("hot", env.n(300_000), gen::hot, check),
        text("fragments", env.n(300_000), gen::frags, check),
        real_windows(env.n(30_000), check),
        tape("constructed", env.n(300_000), check_built),
        tape("constructor-literals", env.n(300_000), check_ctor),
        text("stretched", env.n(40_000), gen::stretched, check),
        text("stretched-far", env.n(600), |s| gen::stretched_to(s, 16), check),
        tape("long-constructed", env.n(10_000), check_long_built),
        enumerate(E_NUM, 0, t, check),
        enumerate(E_QUOTE, 0, t, check),
        enumerate(E_COMMENT, 0, t, check),
        enumerate(E_PUNCT, 0, t, check),
        enum_escapes(3, check),
        enum_frags(if t { 3 } else { 2 }, check),
        words(check),
        boundaries(if t { 13 } else { 11 }, check),
        nesting(if t { 1024 } else { 256 }, check),
        real_files(if t { 200 } else { 40 }, check),
        sweep(t, check),
        pairs(check),
    ]
}

// ------------------------------------------------------------------ C06

/// The same text whatever the flags, and through every way of writing.
fn flags<T: std::fmt::Display + ?Sized>(x: &T, want: &str, what: &str) -> R {
    use std::fmt::Write as _;
    use std::io::Write as _;
    let w = (want.len() / 2).min(60_000);
    let mut text = "before".to_owned();
    let mut bytes = Vec::new();
    let (a, b) = (write!(text, "{x}after"), write!(bytes, "{x:3}"));
    ensure!(a.is_ok() && b.is_ok(), "writing {what} fails");
    ensure!(text.strip_prefix("before").and_then(|t| t.strip_suffix("after")) == Some(want), "{what} written into a string reads {}", short(&text));
    let forms = [
        format!("{x}"),
        format!("{x:>40}"),
        format!("{x:<3}"),
        format!("{x:^20}"),
        format!("{x:#}"),
        format!("{x:010}"),
        format!("{x:.0}"),
        format!("{x:.1}"),
        format!("{x:.2}"),
        format!("{x:.w$}"),
        format!("{x:w$.w$}"),
        format!("{x:+}"),
        format!("{x:-}"),
        format!("{x:*>9.1}"),
        format!("{x:#>+#012.3}"),
        format!("{x:é^0$}", (want.len() + 9).min(60_000)),
        String::from_utf8_lossy(&bytes).into_owned(),
    ];
    for f in forms {
        ensure!(f == want, "with formatting flags {what} prints {} instead of {}", short(&f), short(want));
    }
    // an error of the sink is passed on, and nothing else goes wrong
    struct Full(usize);
    impl std::fmt::Write for Full {
        fn write_str(&mut self, s: &str) -> std::fmt::Result {
            if s.len() > self.0 {
                return Err(std::fmt::Error);
            }
            self.0 -= s.len();
            Ok(())
        }
    }
    for room in [0, w, want.len().saturating_sub(1), want.len()] {
        let ok = write!(Full(room), "{x}").is_ok();
        ensure!(ok == (room >= want.len()), "writing {what} ({} bytes) into a sink for {room} bytes {}", want.len(), if ok { "succeeds" } else { "fails" });
    }
    Ok(())
}

fn canonical(ts: &TokenStream, m: &[TT], with_flags: bool, cx: &mut Cx) -> R {
    let want = model::print(m);
    let got = ts.to_string();
    ensure!(
        got == want,
        "the tokens {}\n  print as {}\n  instead of {}",
        model::show(m),
        short(&got),
        short(&want)
    );
    if with_flags {
        flags(ts, &want, "a stream")?;
    }
    ensure!(ts.to_string() == want, "printing twice gives different text");
    // each tree by itself, and the trees of groups
    for (t, w) in ts.clone().into_iter().zip(m) {
        cx.extra += 1;
        let want = model::print(std::slice::from_ref(w));
        ensure!(t.to_string() == want, "the token tree {} prints as {}", model::show(std::slice::from_ref(w)), short(&t.to_string()));
        match &t {
            TokenTree::Group(g) => {
                ensure!(g.to_string() == want, "the group {} prints as {}", short(&want), short(&g.to_string()));
                if with_flags {
                    flags(g, &want, "a group")?;
                    flags(&t, &want, "a token tree")?;
                }
                let Tok::Group(_, inner) = &w.t else {
                    return Err("model mismatch".to_owned());
                };
                canonical(&g.stream(), inner, false, cx)?;
            }
            TokenTree::Ident(i) => ensure!(i.to_string() == want, "identifier prints as {i}"),
            TokenTree::Punct(p) => ensure!(p.to_string() == want, "punctuation prints as {p}"),
            TokenTree::Literal(l) => ensure!(l.to_string() == want, "literal prints as {l}"),
        }
    }
    Ok(())
}

/// Non-trivial for C06: at least two tokens.
fn check_c06_text(s: &str, cx: &mut Cx) -> R {
    let Ok(ts) = TokenStream::from_str(s) else {
        cx.label("rejected");
        return Ok(());
    };
    // the tokens as the reference grammar sees them, where it agrees
    let m = model::dump(ts.clone());
    cx.nontrivial = model::count(&m) >= 2;
    let flags = hash_bytes(s.as_bytes()) % 8 == 0;
    canonical(&ts, &m, flags, cx)
}

fn check_c06_built(s: &mut Src, cx: &mut Cx) -> R {
    let m = gen::wild_model(s, 3, 12);
    let want = model::split_negative(&m);
    cx.nontrivial = model::count(&want) >= 2;
    if cx.want_sample {
        cx.sample = Some(model::show(&m));
    }
    let spans = model::some_spans(s);
    let ts = model::build_stream(&m, s, &spans);
    let flags = s.chance(1, 6);
    canonical(&ts, &want, flags, cx)?;
    // another route, other spans
    let ts2 = model::build_stream(&m, s, &spans);
    ensure!(ts2.to_string() == ts.to_string(), "two ways of building the same tokens print {} and {}", short(&ts.to_string()), short(&ts2.to_string()));
    // growing a stream that was already printed
    let mut ts3 = ts.clone();
    ts3.extend([ts2]);
    let mut twice = want.clone();
    twice.extend(want.iter().cloned());
    ensure!(ts3.to_string() == model::print(&twice), "extended after printing: {}", short(&ts3.to_string()));
    ensure!(ts.to_string() == model::print(&want), "printing changed after a clone was extended");
    Ok(())
}

fn check_c06_long(s: &mut Src, cx: &mut Cx) -> R {
    let m = gen::wild_model(s, 2, 8);
    let m = gen::lengthen(s, m);
    let want = model::split_negative(&m);
    cx.nontrivial = model::count(&want) >= 2;
    let spans = model::some_spans(s);
    let ts = model::build_stream(&m, s, &spans);
    let flags = s.chance(1, 4);
    canonical(&ts, &want, flags, cx)
}

/// every pair of small tokens
fn pair_tokens() -> Vec<Tok> {
    let mut v = vec![
        Tok::Ident("a".into(), false),
        Tok::Ident("b".into(), true),
        Tok::Lit("1".into()),
        Tok::Lit("-2.5".into()),
        Tok::Lit("\"s\"".into()),
        Tok::Lit("'c'".into()),
        Tok::Lit("r#\"x\"#".into()),
    ];
    for d in [Delim::Paren, Delim::Brace, Delim::Bracket, Delim::None] {
        v.push(Tok::Group(d, vec![]));
        v.push(Tok::Group(d, vec![model::plain(Tok::Ident("z".into(), false))]));
        v.push(Tok::Group(d, vec![model::plain(Tok::Punct('+', true))]));
        v.push(Tok::Group(d, vec![model::plain(Tok::Group(Delim::Brace, vec![]))]));
        v.push(Tok::Group(d, vec![model::plain(Tok::Group(Delim::None, vec![]))]));
    }
    for c in reflex::PUNCT.chars() {
        v.push(Tok::Punct(c, true));
        v.push(Tok::Punct(c, false));
    }
    v
}

fn check_c06_pairs(s: &mut Src, cx: &mut Cx) -> R {
    let toks = pair_tokens();
    let n = s.range(1, 3);
    let m: Vec<TT> = (0..n).map(|_| model::plain(s.pick(&toks).clone())).collect();
    cx.nontrivial = n > 1;
    if cx.want_sample {
        cx.sample = Some(model::show(&m));
    }
    let ts: TokenStream = m.iter().map(model::build_tree).collect();
    canonical(&ts, &model::split_negative(&m), true, cx)
}

pub fn c06(env: Env) -> Vec<Phase> {
    let t = env.thorough;
    let check = check_c06_text;
    vec![
        tape("constructed", env.n(400_000), check_c06_built),
        tape("small-combinations", env.n(400_000), check_c06_pairs),
        text("tokens", env.n(150_000), gen::tokens, check),
        text("mutated", env.n(200_000), gen::mutated, check),
        text("hot", env.n(300_000), gen::hot, check),
        text("fragments", env.n(300_000), gen::frags, check),
        real_windows(env.n(30_000), check),
        text("stretched", env.n(30_000), gen::stretched, check),
        text("stretched-far", env.n(400), |s| gen::stretched_to(s, 16), check),
        tape("long-constructed", env.n(6_000), check_c06_long),
        words(check),
        boundaries(if t { 13 } else { 11 }, check),
        enumerate(E_NUM, 0, t, check),
        enumerate(E_QUOTE, 0, t, check),
        enumerate(E_COMMENT, 0, t, check),
        enumerate(E_PUNCT, 0, t, check),
        enum_frags(if t { 3 } else { 2 }, check),
        sweep(t, check),
        pairs(check),
        nesting(256, check),
        real_files(if t { 200 } else { 40 }, check),
    ]
}
