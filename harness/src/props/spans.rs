//! C13 locations of parsed tokens, C14 span operations.

#[allow(unused_imports)]
use super::common::*;
use super::Env;
use crate::engine::*;

#[cfg(not(feature = "spans"))]
pub fn c13(_: Env) -> Vec<Phase> {
    Vec::new()
}
#[cfg(not(feature = "spans"))]
pub fn c14(_: Env) -> Vec<Phase> {
    Vec::new()
}

#[cfg(feature = "spans")]
pub use imp::{c13, c14};

#[cfg(feature = "spans")]
mod imp {
    use super::*;
    use crate::ensure;
    use crate::gen;
    use crate::reflex::{Lexer, Tok, TT};
    use proc_macro2::{Group, LineColumn, Literal, Span, TokenStream, TokenTree};
    use std::fmt::Write as _;
    use std::ops::Bound;
    use std::str::FromStr;

    /// A parsed string and where each of its characters is.
    pub struct File {
        text: String,
        /// per character offset (and one past the end): byte, line, column
        at: Vec<(usize, usize, usize)>,
        toks: Vec<Known>,
        name: String,
    }

    #[derive(Clone)]
    pub struct Known {
        span: Span,
        lo: usize,
        hi: usize,
        cr: bool,
        tree: Option<TokenTree>,
    }

    fn positions(text: &str) -> Vec<(usize, usize, usize)> {
        let mut v = Vec::with_capacity(text.len() + 1);
        let (mut line, mut col) = (1, 0);
        for (b, c) in text.char_indices() {
            v.push((b, line, col));
            if c == '\n' {
                line += 1;
                col = 0;
            } else {
                col += 1;
            }
        }
        v.push((text.len(), line, col));
        v
    }

    /// `None` if the tokens are not those of the grammar (another property).
    fn collect(ts: &TokenStream, want: &[TT], out: &mut Vec<Known>) -> Option<()> {
        let mut n = 0;
        for t in ts.clone() {
            let w = want.get(n)?;
            n += 1;
            match (&t, &w.t) {
                (TokenTree::Group(g), Tok::Group(_, inner)) => {
                    let k = out.len();
                    out.push(Known {
                        span: t.span(),
                        lo: w.lo,
                        hi: w.hi,
                        cr: w.cr,
                        tree: None,
                    });
                    collect(&g.stream(), inner, out)?;
                    out[k].tree = Some(t);
                }
                (TokenTree::Ident(_), Tok::Ident(..)) | (TokenTree::Punct(_), Tok::Punct(..)) | (TokenTree::Literal(_), Tok::Lit(_)) => {
                    out.push(Known {
                        span: t.span(),
                        lo: w.lo,
                        hi: w.hi,
                        cr: w.cr,
                        tree: Some(t),
                    });
                }
                _ => return None,
            }
        }
        (n == want.len()).then_some(())
    }

    /// Parses; `Ok(None)` if rejected or not comparable.
    fn open(text: &str) -> Option<File> {
        let ts = TokenStream::from_str(text).ok()?;
        let c: Vec<char> = text.chars().collect();
        let want = Lexer::new(&c).stream().ok()?;
        let mut toks = Vec::new();
        collect(&ts, &want, &mut toks)?;
        Some(File {
            text: text.to_owned(),
            at: positions(text),
            toks,
            name: String::new(),
        })
    }

    fn open_literal(text: &str) -> Option<File> {
        let l = Literal::from_str(text).ok()?;
        let n = text.chars().count();
        let toks = vec![Known {
            span: l.span(),
            lo: 0,
            hi: n,
            cr: false,
            tree: Some(TokenTree::Literal(l)),
        }];
        Some(File {
            text: text.to_owned(),
            at: positions(text),
            toks,
            name: String::new(),
        })
    }

    const QUERIES: usize = 5;

    impl File {
        fn query(&mut self, span: Span, lo: usize, hi: usize, cr: bool, q: usize) -> R {
            // the carriage return that ends a line comment may or may not
            // belong to it
            let mut his = vec![hi];
            if cr {
                let r = self.text.as_bytes().get(self.at[hi].0) == Some(&b'\r');
                if r {
                    his.push(hi + 1);
                }
                if hi > lo && self.text.as_bytes()[self.at[hi].0 - 1] == b'\r' {
                    his.push(hi - 1);
                }
            }
            let mut last = String::new();
            for hi in his {
                match self.query1(span, lo, hi, q) {
                    Ok(()) => return Ok(()),
                    Err(e) => last = e,
                }
            }
            Err(last)
        }

        fn query1(&mut self, span: Span, lo: usize, hi: usize, q: usize) -> R {
            let (b0, l0, c0) = self.at[lo];
            let (b1, l1, c1) = self.at[hi];
            match q {
                0 => {
                    let got = span.source_text();
                    ensure!(
                        got.as_deref() == Some(&self.text[b0..b1]),
                        "source_text() of {} (bytes {b0}..{b1} of {}) is {:?}",
                        short(&self.text[b0..b1]),
                        short(&self.text),
                        got
                    );
                }
                1 => {
                    let got = span.byte_range();
                    ensure!(got == (b0..b1), "byte_range() of {} in {} is {got:?} instead of {b0}..{b1}", short(&self.text[b0..b1]), short(&self.text));
                }
                2 => {
                    let got = span.start();
                    ensure!(
                        (got.line, got.column) == (l0, c0),
                        "start() of {} in {} is {got:?} instead of line {l0} column {c0}",
                        short(&self.text[b0..b1]),
                        short(&self.text)
                    );
                }
                3 => {
                    let got = span.end();
                    ensure!(
                        (got.line, got.column) == (l1, c1),
                        "end() of {} in {} is {got:?} instead of line {l1} column {c1}",
                        short(&self.text[b0..b1]),
                        short(&self.text)
                    );
                }
                _ => {
                    let got = span.file();
                    if self.name.is_empty() {
                        self.name = got;
                    } else {
                        ensure!(got == self.name, "file() of a token of {} is {got:?}, of another of its tokens {:?}", short(&self.text), self.name);
                    }
                    ensure!(span.local_file().is_none(), "local_file() of a parsed string");
                }
            }
            Ok(())
        }

        fn all(&mut self, span: Span, lo: usize, hi: usize, cr: bool) -> R {
            for q in 0..QUERIES {
                self.query(span, lo, hi, cr, q)?;
            }
            Ok(())
        }
    }

    fn call_site_ok(s: Span) -> R {
        ensure!(s.source_text().is_none(), "the call site has source text {:?}", s.source_text());
        ensure!(s.byte_range() == (0..0), "the call site has byte range {:?}", s.byte_range());
        let (a, b) = (s.start(), s.end());
        ensure!((a.line, a.column, b.line, b.column) == (1, 0, 1, 0), "the call site is at {a:?} {b:?}");
        ensure!(s.file() == "<unspecified>", "the call site is in file {:?}", s.file());
        ensure!(s.local_file().is_none(), "the call site has a local file");
        Ok(())
    }

    fn distinct_names(files: &mut [File]) -> R {
        for f in files.iter_mut() {
            if let Some(k) = f.toks.first().cloned() {
                f.query(k.span, k.lo, k.hi, k.cr, 4)?;
            }
        }
        let mut names: Vec<&str> = files.iter().filter(|f| !f.name.is_empty()).map(|f| f.name.as_str()).collect();
        names.sort_unstable();
        for w in names.windows(2) {
            ensure!(w[0] != w[1], "two parsed strings are both in file {:?}", w[0]);
        }
        ensure!(!names.contains(&"<unspecified>"), "a parsed string is in the unspecified file");
        Ok(())
    }

    /// A short text whose characters have many widths.
    fn small_text(s: &mut Src) -> String {
        match s.below(8) {
            0 => gen::tokens(s),
            1 => gen::sloppy(s),
            2 => gen::mutated(s),
            3 | 4 => {
                let n = s.range(1, 12);
                let mut o = String::new();
                for _ in 0..n {
                    o.push_str(*s.pick(&[
                        "a", "é", "日本", "𝒳", "\"é日😀\"", "'😀'", "+", " ", "\n", "\r\n", "(", ")", "// é\n", "/* 日 */", "/// é\n", "/** 日\n */", "1.5é", "b\"x\"",
                        "'a", "[é]", "{}", "\u{feff}", "\u{2028}", "r#é", "\"\n\n\"", "\t",
                    ]));
                }
                o
            }
            5 => {
                // balanced
                let n = s.range(1, 5);
                let mut o = String::new();
                let mut close = String::new();
                for _ in 0..n {
                    let (a, b) = *s.pick(&[("(é", "日)"), ("[", "]"), ("{\n", "\n}"), ("( ", " )")]);
                    o.push_str(a);
                    o.push(' ');
                    close.insert_str(0, b);
                }
                o + &close
            }
            6 => String::new(),
            _ => {
                let srcs = real_sources();
                let t = &srcs[s.below(srcs.len())];
                let a = (0..=s.below(t.len())).rev().find(|i| t.is_char_boundary(*i)).unwrap_or(0);
                let n = s.range(1, 80).min(t.len() - a);
                let e = (a..=a + n).rev().find(|i| t.is_char_boundary(*i)).unwrap_or(a);
                t[a..e].to_owned()
            }
        }
    }

    pub struct World {
        files: Vec<File>,
        log: String,
        old: Vec<TokenStream>,
        /// call-site tokens made along the way
        calls: Vec<Span>,
    }

    impl World {
        fn new() -> World {
            World {
                files: Vec::new(),
                log: String::new(),
                old: Vec::new(),
                calls: vec![Span::call_site()],
            }
        }
        fn parse(&mut self, s: &mut Src) {
            let (t, f);
            if s.chance(1, 5) {
                t = match s.below(3) {
                    0 => format!("-{}", gen::number(s)),
                    1 => gen::literal(s, false),
                    _ => gen::literal(s, true),
                };
                f = open_literal(&t);
                let _ = write!(self.log, "parse literal {}; ", short(&t));
            } else {
                t = small_text(s);
                f = open(&t);
                let _ = write!(self.log, "parse {}; ", short(&t));
            }
            if let Some(f) = f {
                self.files.push(f);
            }
        }
        /// A span got from an operation, on a token of its own, for later
        /// operations.
        fn derive(&mut self, s: &mut Src, f: usize, span: Span, lo: usize, hi: usize) {
            if !s.chance(1, 3) || self.files[f].toks.len() > 40 {
                return;
            }
            let mut t = match s.below(3) {
                0 => TokenTree::Literal(Literal::string("é")),
                1 => TokenTree::Group(Group::new(proc_macro2::Delimiter::Bracket, TokenStream::new())),
                _ => TokenTree::Group(Group::new(proc_macro2::Delimiter::None, TokenStream::new())),
            };
            t.set_span(span);
            let _ = write!(self.log, "keep it as {f}.{}; ", self.files[f].toks.len());
            self.files[f].toks.push(Known {
                span,
                lo,
                hi,
                cr: false,
                tree: Some(t),
            });
        }
        fn pick(&mut self, s: &mut Src) -> Option<(usize, usize)> {
            let v: Vec<usize> = (0..self.files.len()).filter(|i| !self.files[*i].toks.is_empty()).collect();
            if v.is_empty() {
                return None;
            }
            let f = *s.pick(&v);
            let t = s.below(self.files[f].toks.len());
            Some((f, t))
        }
    }

    /// Non-trivial: at least two strings with tokens and eight queries.
    fn check_history(s: &mut Src, cx: &mut Cx) -> R {
        let mut w = World::new();
        let steps = 4 + s.skewed(60);
        let mut queries = 0;
        let r = (|| -> R {
            for _ in 0..steps {
                match s.below(8) {
                    0 | 1 if w.files.len() < 8 => w.parse(s),
                    2 if s.chance(1, 4) => {
                        let t = if s.chance(1, 2) { "\"" } else { "(é" };
                        let e = TokenStream::from_str(t).err();
                        let _ = write!(w.log, "parse {t:?}; ");
                        ensure!(e.is_some(), "{t:?} was accepted");
                    }
                    2 => {
                        w.log.push_str("call site; ");
                        let k = s.below(w.calls.len());
                        call_site_ok(w.calls[k])?;
                        let l = Literal::string("é");
                        w.calls.push(l.span());
                        w.calls.push(Span::mixed_site());
                    }
                    3 if s.chance(1, 12) => {
                        w.log.push_str("invalidate; ");
                        for f in w.files.drain(..) {
                            // tokens outlive their locations
                            let ts: TokenStream = f.toks.iter().filter_map(|k| k.tree.clone()).collect();
                            w.old.push(ts);
                        }
                        proc_macro2::extra::invalidate_current_thread_spans();
                    }
                    _ => {
                        if let Some((f, t)) = w.pick(s) {
                            let k = w.files[f].toks[t].clone();
                            let q = s.below(QUERIES);
                            let _ = write!(w.log, "query {q} of token {t} of string {f}; ");
                            queries += 1;
                            w.files[f].query(k.span, k.lo, k.hi, k.cr, q)?;
                        }
                    }
                }
            }
            // at the end, everything, in a random order
            let mut all: Vec<(usize, usize)> = Vec::new();
            for (i, f) in w.files.iter().enumerate() {
                all.extend((0..f.toks.len()).map(|t| (i, t)));
            }
            while !all.is_empty() {
                let k = s.below(all.len());
                let (f, t) = all.swap_remove(k);
                let k = w.files[f].toks[t].clone();
                cx.extra += QUERIES as u64;
                w.files[f].all(k.span, k.lo, k.hi, k.cr)?;
                if let Some(tree) = &k.tree {
                    let sp = tree.clone().span();
                    w.files[f].query(sp, k.lo, k.hi, k.cr, 1)?;
                }
            }
            distinct_names(&mut w.files)?;
            for c in &w.calls {
                call_site_ok(*c)?;
            }
            for o in &w.old {
                let _ = o.to_string();
            }
            Ok(())
        })();
        let many = w.files.iter().filter(|f| !f.toks.is_empty()).count() >= 2;
        cx.nontrivial = many && queries >= 8;
        if cx.want_sample {
            cx.sample = Some(w.log.clone());
        }
        r.map_err(|m| format!("{m}\n  after: {}", w.log))
    }

    /// Non-trivial: accepted, with a token that does not start at offset 0.
    fn check_text(t: &str, cx: &mut Cx) -> R {
        // something before and after it
        let _ = TokenStream::from_str("x é");
        let Some(mut f) = open(t) else {
            cx.label("rejected");
            return Ok(());
        };
        cx.label("accepted");
        let _ = TokenStream::from_str("日");
        let n = f.toks.len();
        if n == 0 {
            return Ok(());
        }
        cx.nontrivial = f.toks[n - 1].lo > 0;
        let budget = n.min(400);
        let h = hash_bytes(t.as_bytes());
        // a scattered order first, then in order with everything
        for j in 0..budget {
            let k = f.toks[(mix(h ^ j as u64) % n as u64) as usize].clone();
            f.query(k.span, k.lo, k.hi, k.cr, (mix(h ^ (j as u64) << 20) % QUERIES as u64) as usize)?;
        }
        let step = (n / budget).max(1);
        let mut j = 0;
        while j < n {
            let k = f.toks[j].clone();
            cx.extra += 1;
            f.all(k.span, k.lo, k.hi, k.cr)?;
            j += step;
        }
        Ok(())
    }

    /// Very many strings on one thread.
    fn check_many(s: &mut Src, cx: &mut Cx) -> R {
        let n = s.range(30, 400);
        let mut w = World::new();
        let texts: Vec<String> = (0..6).map(|_| small_text(s)).collect();
        for i in 0..n {
            let t = &texts[s.below(texts.len())];
            if i % 3 == 0 {
                let _ = TokenStream::from_str(t);
            } else if let Some(f) = open(t) {
                w.files.push(f);
            }
            if s.chance(1, 4) {
                if let Some((f, t)) = w.pick(s) {
                    let k = w.files[f].toks[t].clone();
                    w.files[f].all(k.span, k.lo, k.hi, k.cr)?;
                }
            }
        }
        cx.nontrivial = w.files.len() > 10;
        if cx.want_sample {
            cx.sample = Some(format!("{n} strings out of {texts:?}"));
        }
        for _ in 0..60 {
            if let Some((f, t)) = w.pick(s) {
                cx.extra += 1;
                let k = w.files[f].toks[t].clone();
                w.files[f].all(k.span, k.lo, k.hi, k.cr)?;
            }
        }
        distinct_names(&mut w.files)
    }

    /// Tens of thousands of strings on one thread.
    fn check_very_many(s: &mut Src, cx: &mut Cx) -> R {
        let n = (1 << s.range(10, 17)) + s.below(9) - 4;
        let mut w = World::new();
        cx.nontrivial = true;
        if cx.want_sample {
            cx.sample = Some(format!("{n} strings"));
        }
        let every = (n / 200).max(1);
        let fill = small_text(s);
        for i in 0..n {
            if i % every == 0 || i + 20 > n {
                let t = small_text(s);
                if let Some(f) = open(&t) {
                    w.files.push(f);
                }
            } else {
                let _ = TokenStream::from_str(if i % 2 == 0 { "x" } else { &fill });
            }
        }
        for i in 0..w.files.len() {
            for k in w.files[i].toks.clone() {
                cx.extra += 1;
                w.files[i].all(k.span, k.lo, k.hi, k.cr)?;
            }
        }
        distinct_names(&mut w.files)
    }

    /// A thread that has parsed tens of megabytes before.
    fn check_far(s: &mut Src, cx: &mut Cx) -> R {
        let mut w = World::new();
        let far = (1usize << s.range(15, 25)) - s.below(64);
        cx.nontrivial = true;
        if cx.want_sample {
            cx.sample = Some(format!("strings around offset {far}"));
        }
        let first = small_text(s);
        w.files.extend(open(&first));
        let pad = " ".repeat(far);
        let _ = TokenStream::from_str(&pad);
        drop(pad);
        for _ in 0..s.range(2, 20) {
            let t = small_text(s);
            w.files.extend(open(&t));
        }
        for _ in 0..2 {
            for i in 0..w.files.len() {
                for k in w.files[i].toks.clone() {
                    cx.extra += 1;
                    w.files[i].all(k.span, k.lo, k.hi, k.cr)?;
                }
            }
            // and a string of that length
            if far < 1 << 20 {
                let t = format!("{first}\n\"{}\" b", "é".repeat(far));
                w.files.extend(open(&t));
            }
        }
        distinct_names(&mut w.files)
    }

    /// One long text whose places are looked up in many different orders.
    fn check_places(s: &mut Src, cx: &mut Cx) -> R {
        cx.nontrivial = true;
        let n = (1usize << s.range(8, 14)) + s.below(200);
        let words = ["é ", "a ", "日\n", "\"ß\u{1F600}\"", "+ ", "(x)", "// ü\n", " \r\n", "1"];
        let kinds = s.range(1, words.len());
        let mut text = String::new();
        for _ in 0..n {
            text.push_str(words[s.below(kinds)]);
            if !text.ends_with([' ', '\n']) {
                text.push(' ');
            }
        }
        let order = s.below(5);
        if cx.want_sample {
            cx.sample = Some(format!("{n} pieces, order {order}: {}", short(&text)));
        }
        let Some(mut f) = open(&text) else {
            return Err(format!("rejected: {}", short(&text)));
        };
        let mut at: Vec<usize> = (0..f.toks.len()).collect();
        let mut h = s.u64() | 1;
        let mut rand = move |m: usize| {
            h ^= h << 13;
            h ^= h >> 7;
            h ^= h << 17;
            (h % m as u64) as usize
        };
        for pass in 0..2 {
            match (order + pass) % 5 {
                0 => at.sort_unstable(),
                1 => at.sort_unstable_by(|a, b| b.cmp(a)),
                2 => {
                    for i in (1..at.len()).rev() {
                        at.swap(i, rand(i + 1));
                    }
                }
                3 => at.sort_unstable_by_key(|&k| (k % 97, k)),
                _ => {
                    at.sort_unstable();
                    let k = rand(at.len().max(1));
                    at.rotate_left(k);
                    at[..k].reverse();
                }
            }
            for &k in &at {
                cx.extra += 1;
                let k = f.toks[k].clone();
                f.all(k.span, k.lo, k.hi, k.cr)?;
            }
        }
        Ok(())
    }

    /// The whole range of 32-bit positions.
    fn check_limit(s: &mut Src, cx: &mut Cx) -> R {
        let mut w = World::new();
        cx.nontrivial = true;
        let step = (1usize << 29) - s.range(100, 5000);
        if cx.want_sample {
            cx.sample = Some(format!("strings between others of {step} characters, up to 2^32 characters"));
        }
        let pad = " ".repeat(step);
        for _ in 0..8 {
            for _ in 0..3 {
                let t = small_text(s);
                w.files.extend(open(&t));
            }
            let _ = TokenStream::from_str(&pad);
        }
        let t = small_text(s);
        w.files.extend(open(&t));
        for i in 0..w.files.len() {
            for k in w.files[i].toks.clone() {
                cx.extra += 1;
                w.files[i].all(k.span, k.lo, k.hi, k.cr)?;
            }
        }
        distinct_names(&mut w.files)
    }

    /// More than 2^32 characters, with invalidation in between.
    fn check_invalidated(s: &mut Src, cx: &mut Cx) -> R {
        cx.nontrivial = true;
        let step = (1usize << 29) - s.range(0, 5000);
        if cx.want_sample {
            cx.sample = Some(format!("nine strings of {step} characters, spans invalidated after each"));
        }
        let pad = " ".repeat(step);
        for _ in 0..9 {
            let _ = TokenStream::from_str(&pad);
            let mut w = World::new();
            for _ in 0..3 {
                let t = small_text(s);
                w.files.extend(open(&t));
            }
            for i in 0..w.files.len() {
                for k in w.files[i].toks.clone() {
                    cx.extra += 1;
                    w.files[i].all(k.span, k.lo, k.hi, k.cr)?;
                }
            }
            distinct_names(&mut w.files)?;
            proc_macro2::extra::invalidate_current_thread_spans();
        }
        Ok(())
    }

    fn check_literal(t: &str, cx: &mut Cx) -> R {
        let Some(mut f) = open_literal(t) else {
            return Ok(());
        };
        cx.nontrivial = true;
        let k = f.toks[0].clone();
        f.all(k.span, k.lo, k.hi, false)?;
        let mut g = match open("日 x") {
            Some(g) => g,
            None => return Err("日 x does not parse".to_owned()),
        };
        let k2 = g.toks[1].clone();
        g.all(k2.span, k2.lo, k2.hi, false)?;
        f.all(k.span, k.lo, k.hi, false)
    }

    /// Expensive cases run in one configuration.
    const ONCE: bool = cfg!(all(feature = "wrap", not(feature = "exempt")));

    pub fn c13(env: Env) -> Vec<Phase> {
        let t = env.thorough;
        let check = check_text;
        vec![
            tape("histories", env.n(120_000), check_history),
            tape("many-strings", env.n(2_000), check_many),
            tape("very-many-strings", env.n(16), check_very_many),
            tape("far-offsets", env.n(16), check_far),
            tape("all-offsets", u64::from(ONCE), check_limit),
            tape("places", env.n(60), check_places),
            text("stretched", env.n(20_000), gen::stretched, check),
            text("stretched-far", env.n(500), |s| gen::stretched_to(s, 17), check),
            text("tokens", env.n(100_000), gen::tokens, check),
            text("sloppy", env.n(100_000), gen::sloppy, check),
            text("mutated", env.n(150_000), gen::mutated, check),
            text("hot", env.n(150_000), gen::hot, check),
            text("fragments", env.n(150_000), gen::frags, check),
            text(
                "literals",
                env.n(150_000),
                |s| {
                    if s.chance(1, 3) {
                        format!("-{}", gen::number(s))
                    } else {
                        gen::literal(s, false)
                    }
                },
                check_literal,
            ),
            text("wide", env.n(100_000), small_text, check),
            real_windows(env.n(30_000), check),
            enumerate(E_COMMENT, 0, t, check),
            enumerate(E_PUNCT, 0, t, check),
            enumerate(E_BLANK, 0, t, check),
            enum_frags(if t { 3 } else { 2 }, check),
            words(check),
            boundaries(if t { 13 } else { 11 }, check),
            nesting(if t { 1024 } else { 256 }, check),
            real_files(if t { 400 } else { 60 }, check),
            sweep(t, check),
            pairs(check),
        ]
    }

    // -------------------------------------------------------------- C14

    fn show_range(a: &Bound<usize>, b: &Bound<usize>) -> String {
        format!("({a:?}, {b:?})")
    }

    fn subspan_case(f: &mut File, k: &Known, lit: &Literal, a: Bound<usize>, b: Bound<usize>) -> R {
        let (b0, b1) = (f.at[k.lo].0, f.at[k.hi].0);
        let text = f.text[b0..b1].to_owned();
        let start = match a {
            Bound::Included(x) => Some(x),
            Bound::Excluded(x) => x.checked_add(1),
            Bound::Unbounded => Some(0),
        };
        let end = match b {
            Bound::Included(x) => x.checked_add(1),
            Bound::Excluded(x) => Some(x),
            Bound::Unbounded => Some(text.len()),
        };
        let got = catch(|| lit.subspan((a, b))).map_err(|p| format!("subspan{} of {} panicked: {p}", show_range(&a, &b), short(&text)))?;
        let inside = match (start, end) {
            (Some(s), Some(e)) if s <= e && e <= text.len() => Some((s, e)),
            _ => None,
        };
        match (inside, got) {
            (None, None) => Ok(()),
            (None, Some(x)) => Err(format!(
                "subspan{} of {} ({} bytes) gives {:?} although the range is not within it",
                show_range(&a, &b),
                short(&text),
                text.len(),
                x.source_text()
            )),
            (Some((s, e)), Some(x)) => {
                let r = x.byte_range();
                ensure!(
                    r == (b0 + s..b0 + e),
                    "subspan{} of {} covers bytes {r:?} instead of {}..{}",
                    show_range(&a, &b),
                    short(&text),
                    b0 + s,
                    b0 + e
                );
                ensure!(
                    x.source_text().as_deref() == Some(&text[s..e]),
                    "subspan{} of {} has text {:?}",
                    show_range(&a, &b),
                    short(&text),
                    x.source_text()
                );
                ensure!(x.file() == lit.span().file(), "subspan is in another file");
                Ok(())
            }
            (Some((s, e)), None) => {
                // not representable: cuts through a character
                ensure!(
                    !text.is_char_boundary(s) || !text.is_char_boundary(e),
                    "subspan{} of {} gives None",
                    show_range(&a, &b),
                    short(&text)
                );
                Ok(())
            }
        }
    }

    fn rand_bound(s: &mut Src, len: usize, end: bool) -> Bound<usize> {
        let v = match s.below(10) {
            0..=6 => s.below(len + 1),
            7 => len + s.below(3),
            8 => usize::MAX - s.below(2),
            _ => *s.pick(&[u32::MAX as usize, u32::MAX as usize + 1, u32::MAX as usize - 1, 1 << 31]),
        };
        match s.below(if end { 5 } else { 4 }) {
            0 | 1 if end => Bound::Excluded(v),
            0 | 1 => Bound::Included(v),
            2 if end => Bound::Included(v),
            2 => Bound::Excluded(v),
            _ => Bound::Unbounded,
        }
    }

    fn delims(f: &mut File, g: &Group, lo: usize, hi: usize) -> R {
        let d = g.delim_span();
        let (first, last) = ((lo + 1).min(hi), hi.saturating_sub(1).max(lo));
        let ctx = |m: &str, what: &str| format!("{what}: {m}");
        f.all(g.span(), lo, hi, false).map_err(|m| ctx(&m, "group.span()"))?;
        f.all(g.span_open(), lo, first, false).map_err(|m| ctx(&m, "group.span_open()"))?;
        f.all(g.span_close(), last, hi, false).map_err(|m| ctx(&m, "group.span_close()"))?;
        f.all(d.open(), lo, first, false).map_err(|m| ctx(&m, "delim_span().open()"))?;
        f.all(d.close(), last, hi, false).map_err(|m| ctx(&m, "delim_span().close()"))?;
        f.all(d.join(), lo, hi, false).map_err(|m| ctx(&m, "delim_span().join()"))?;
        let c = d;
        ensure!(
            format!("{d:?}") == format!("{:?}", g.span()) && format!("{d:#?}") == format!("{:#?}", g.span()),
            "a delimiter span prints as {d:?}, its group's span as {:?}",
            g.span()
        );
        f.query(c.open(), lo, first, false, 1)
    }

    /// Comparison of spans, where it is available.
    fn same(_a: Span, _b: Span, _want: bool) -> R {
        #[cfg(feature = "exempt")]
        {
            ensure!(_a.eq(&_b) == _want, "{_a:?} eq {_b:?} gives {}", !_want);
            ensure!(_b.eq(&_a) == _want, "{_b:?} eq {_a:?} gives {}", !_want);
        }
        Ok(())
    }

    /// Outside a procedural macro there is no compiler's span to be had.
    fn no_compiler_span(_s: Span) -> R {
        #[cfg(feature = "wrap")]
        {
            ensure!(catch(|| _s.unwrap()).is_err(), "unwrap outside a procedural macro returns a span of the compiler");
            ensure!(catch(|| _s.unstable()).is_err(), "unstable outside a procedural macro returns a span of the compiler");
        }
        Ok(())
    }

    /// Non-trivial: an operation on two spans, a subspan or a group was done.
    fn check_ops(s: &mut Src, cx: &mut Cx) -> R {
        let mut w = World::new();
        for _ in 0..s.range(1, 4) {
            w.parse(s);
        }
        let steps = s.range(4, 40);
        let mut done = 0;
        let r = (|| -> R {
            for _ in 0..steps {
                let op = s.below(16);
                if op == 15 {
                    if s.chance(1, 3) {
                        w.parse(s);
                    } else if s.chance(1, 6) {
                        w.log.push_str("invalidate; ");
                        w.files.clear();
                        proc_macro2::extra::invalidate_current_thread_spans();
                        w.parse(s);
                    }
                    continue;
                }
                if op == 14 {
                    if !s.chance(1, 30) {
                        continue;
                    }
                    // another thread parses, looks, invalidates
                    w.log.push_str("another thread; ");
                    let texts: Vec<String> = (0..3).map(|_| small_text(s)).collect();
                    let inval = s.chance(1, 2);
                    let r: R = std::thread::scope(|sc| {
                        sc.spawn(move || -> R {
                            let mut fs: Vec<File> = texts.iter().filter_map(|t| open(t)).collect();
                            for f in &mut fs {
                                for k in f.toks.clone() {
                                    f.all(k.span, k.lo, k.hi, k.cr)?;
                                }
                            }
                            if inval {
                                proc_macro2::extra::invalidate_current_thread_spans();
                                call_site_ok(Span::call_site())?;
                            }
                            Ok(())
                        })
                        .join()
                        .unwrap_or_else(|_| Err("panic on another thread".to_owned()))
                    });
                    r.map_err(|m| format!("on another thread: {m}"))?;
                    for f in &mut w.files {
                        for k in f.toks.clone() {
                            f.all(k.span, k.lo, k.hi, k.cr).map_err(|m| format!("after another thread parsed: {m}"))?;
                        }
                    }
                    continue;
                }
                let (Some((f, t)), Some((g, u))) = (w.pick(s), w.pick(s)) else {
                    w.parse(s);
                    continue;
                };
                let a = w.files[f].toks[t].clone();
                let b = w.files[g].toks[u].clone();
                cx.extra += 1;
                same(a.span, b.span, f == g && (a.lo, a.hi) == (b.lo, b.hi))?;
                same(a.span, Span::call_site(), false)?;
                if s.chance(1, 16) {
                    no_compiler_span(a.span)?;
                    no_compiler_span(Span::mixed_site())?;
                    #[cfg(feature = "exempt")]
                    {
                        call_site_ok(Span::def_site())?;
                        no_compiler_span(Span::def_site())?;
                        call_site_ok(a.span.located_at(Span::def_site()))?;
                        same(Span::def_site(), Span::call_site(), true)?;
                        same(Span::def_site(), b.span, false)?;
                        ensure!(a.span.join(Span::def_site()).is_none(), "joining with the definition site gives a span");
                    }
                    same(Span::call_site(), Span::mixed_site(), true)?;
                }
                match op {
                    0..=3 => {
                        let _ = write!(w.log, "join {f}.{t} {g}.{u}; ");
                        if a.cr || b.cr {
                            continue;
                        }
                        done += 1;
                        let j = a.span.join(b.span);
                        if f == g {
                            let Some(j) = j else {
                                return Err("joining two spans of one string gives None".to_owned());
                            };
                            w.files[f].all(j, a.lo.min(b.lo), a.hi.max(b.hi), false).map_err(|m| format!("joined span: {m}"))?;
                            w.derive(s, f, j, a.lo.min(b.lo), a.hi.max(b.hi));
                            // joining again with the result changes nothing
                            if let Some(j2) = j.join(a.span) {
                                w.files[f].query(j2, a.lo.min(b.lo), a.hi.max(b.hi), false, 1)?;
                            } else {
                                return Err("joining a joined span gives None".to_owned());
                            }
                        } else {
                            ensure!(j.is_none(), "joining spans of different strings gives {:?}", j.map(|j| j.source_text()));
                        }
                        ensure!(a.span.join(Span::call_site()).is_none(), "joining with the call site gives a span");
                        ensure!(Span::call_site().join(a.span).is_none(), "joining the call site with a span gives a span");
                        w.files[f].query(a.span, a.lo, a.hi, false, 1)?;
                        w.files[g].query(b.span, b.lo, b.hi, false, 1)?;
                    }
                    4..=8 => {
                        let Some(TokenTree::Literal(l)) = &a.tree else {
                            continue;
                        };
                        if a.cr {
                            continue;
                        }
                        done += 1;
                        let len = w.files[f].at[a.hi].0 - w.files[f].at[a.lo].0;
                        let (x, y) = (rand_bound(s, len, false), rand_bound(s, len, true));
                        let _ = write!(w.log, "subspan {f}.{t} {}; ", show_range(&x, &y));
                        subspan_case(&mut w.files[f], &a, l, x, y)?;
                        // a subspan can be used as any other span
                        let (p, q) = (a.lo + s.below(a.hi - a.lo + 1), a.lo + s.below(a.hi - a.lo + 1));
                        let (p, q) = (p.min(q), p.max(q));
                        let at = &w.files[f].at;
                        let (p0, q0) = (at[p].0 - at[a.lo].0, at[q].0 - at[a.lo].0);
                        let l = l.clone();
                        let Some(x) = l.subspan(p0..q0) else {
                            return Err(format!("subspan({p0}..{q0}) of {l} gives None"));
                        };
                        w.derive(s, f, x, p, q);
                    }
                    9 | 10 => {
                        let Some(TokenTree::Group(gr)) = &a.tree else {
                            continue;
                        };
                        if a.cr {
                            continue;
                        }
                        done += 1;
                        let _ = write!(w.log, "delimiters {f}.{t}; ");
                        delims(&mut w.files[f], gr, a.lo, a.hi)?;
                        let (o, c) = (gr.span_open(), gr.span_close());
                        if s.chance(1, 2) {
                            w.derive(s, f, o, a.lo, (a.lo + 1).min(a.hi));
                        } else {
                            w.derive(s, f, c, a.hi.saturating_sub(1).max(a.lo), a.hi);
                        }
                        if !b.cr {
                            let mut gr = gr.clone();
                            gr.set_span(b.span);
                            delims(&mut w.files[g], &gr, b.lo, b.hi).map_err(|m| format!("after set_span: {m}"))?;
                        }
                    }
                    _ => {
                        let _ = write!(w.log, "relocate {f}.{t} {g}.{u}; ");
                        done += 1;
                        w.files[f]
                            .all(a.span.resolved_at(b.span), a.lo, a.hi, a.cr)
                            .map_err(|m| format!("resolved_at: {m}"))?;
                        w.files[g]
                            .all(a.span.located_at(b.span), b.lo, b.hi, b.cr)
                            .map_err(|m| format!("located_at: {m}"))?;
                        call_site_ok(a.span.located_at(Span::call_site())).map_err(|m| format!("located_at(call site): {m}"))?;
                        w.files[f]
                            .all(a.span.resolved_at(Span::call_site()), a.lo, a.hi, a.cr)
                            .map_err(|m| format!("resolved_at(call site): {m}"))?;
                        w.files[f].query(a.span, a.lo, a.hi, a.cr, 1)?;
                        w.files[g].query(b.span, b.lo, b.hi, b.cr, 1)?;
                        if s.chance(1, 4) {
                            // tokens at the call site
                            let l = Literal::string("éé");
                            for (x, y) in [(0, 1), (1, 2), (2, 2), (0, usize::MAX), (1, 0)] {
                                ensure!(l.subspan(x..y).is_none(), "subspan({x}..{y}) of a literal without source text gives {:?}", l.subspan(x..y));
                            }
                            let g = Group::new(proc_macro2::Delimiter::Brace, TokenStream::new());
                            let d = g.delim_span();
                            for x in [g.span(), g.span_open(), g.span_close(), d.open(), d.close(), d.join(), a.span.located_at(l.span()), l.span().resolved_at(a.span)] {
                                call_site_ok(x).map_err(|m| format!("a group or literal at the call site: {m}"))?;
                            }
                        }
                        let (x, y) = (a.span.start(), b.span.end());
                        let want = (x.line, x.column).cmp(&(y.line, y.column));
                        ensure!(x.cmp(&y) == want && x.partial_cmp(&y) == Some(want), "{x:?} cmp {y:?} gives {:?}", x.cmp(&y));
                        ensure!((x < y) == want.is_lt() && (x <= y) == want.is_le() && (x > y) == want.is_gt() && (x >= y) == want.is_ge() && (x == y) == want.is_eq(), "{x:?} compared with {y:?} disagrees");
                    }
                }
            }
            distinct_names(&mut w.files)
        })();
        cx.nontrivial = done > 0;
        if cx.want_sample {
            cx.sample = Some(w.log.clone());
        }
        r.map_err(|m| format!("{m}\n  after: {}", w.log))
    }

    fn check_line_column(s: &mut Src, cx: &mut Cx) -> R {
        let n = |s: &mut Src| match s.below(3) {
            0 => s.below(4),
            1 => s.below(1000),
            _ => (s.u64() >> s.below(64)) as usize,
        };
        let a = LineColumn {
            line: n(s),
            column: n(s),
        };
        let mut b = LineColumn {
            line: n(s),
            column: n(s),
        };
        if s.chance(1, 3) {
            b.line = a.line;
        }
        if s.chance(1, 4) {
            b.column = a.column;
        }
        cx.nontrivial = true;
        if cx.want_sample {
            cx.sample = Some(format!("{a:?} {b:?}"));
        }
        let want = (a.line, a.column).cmp(&(b.line, b.column));
        ensure!(a.cmp(&b) == want, "{a:?} cmp {b:?} gives {:?}", a.cmp(&b));
        ensure!(a.partial_cmp(&b) == Some(want), "{a:?} partial_cmp {b:?} gives {:?}", a.partial_cmp(&b));
        ensure!((a == b) == want.is_eq(), "{a:?} == {b:?} gives {}", a == b);
        ensure!((a < b) == want.is_lt() && (a >= b) == want.is_ge(), "{a:?} < {b:?} disagrees");
        ensure!(a.max(b) == if want.is_gt() { a } else { b }, "max({a:?}, {b:?}) gives {:?}", a.max(b));
        Ok(())
    }

    /// every subrange of a literal
    fn check_all_subspans(t: &str, cx: &mut Cx) -> R {
        let _ = TokenStream::from_str("é x");
        let lead = "é 日 ";
        let text = format!("{lead}{t} x");
        let Some(mut f) = open(&text) else {
            return Ok(());
        };
        for k in f.toks.clone() {
            let Some(TokenTree::Literal(l)) = &k.tree else {
                continue;
            };
            let n = f.at[k.hi].0 - f.at[k.lo].0;
            if k.cr {
                continue;
            }
            // doc comments: the text is the comment's
            cx.nontrivial = true;
            let mut places: Vec<usize> = (0..=n + 2).collect();
            if n > 40 {
                // the ends, the middle, and some more
                let h = hash_bytes(t.as_bytes());
                let near = |x: usize| (x.saturating_sub(3)..=x + 3).filter(move |&y| y <= n + 2);
                places = near(0).chain(near(n / 2)).chain(near(n)).collect();
                places.extend((0..12u64).map(|i| (mix(h ^ i) % (n as u64 + 1)) as usize));
            }
            for &a in &places {
                for &b in &places {
                    cx.extra += 1;
                    subspan_case(&mut f, &k, l, Bound::Included(a), Bound::Excluded(b))?;
                }
                subspan_case(&mut f, &k, l, Bound::Included(a), Bound::Unbounded)?;
                subspan_case(&mut f, &k, l, Bound::Unbounded, Bound::Included(a))?;
                subspan_case(&mut f, &k, l, Bound::Excluded(a), Bound::Unbounded)?;
                subspan_case(&mut f, &k, l, Bound::Unbounded, Bound::Excluded(a))?;
            }
            for big in [usize::MAX, usize::MAX - 1, u32::MAX as usize, u32::MAX as usize + 1] {
                subspan_case(&mut f, &k, l, Bound::Included(big), Bound::Unbounded)?;
                subspan_case(&mut f, &k, l, Bound::Excluded(big), Bound::Unbounded)?;
                subspan_case(&mut f, &k, l, Bound::Unbounded, Bound::Included(big))?;
                subspan_case(&mut f, &k, l, Bound::Included(0), Bound::Excluded(big))?;
                subspan_case(&mut f, &k, l, Bound::Included(big), Bound::Included(big))?;
            }
            f.all(k.span, k.lo, k.hi, false)?;
        }
        Ok(())
    }

    /// joins and delimiters of all tokens of a text
    fn check_joins(t: &str, cx: &mut Cx) -> R {
        let _ = TokenStream::from_str("é");
        let Some(mut f) = open(t) else {
            return Ok(());
        };
        let n = f.toks.len();
        if n < 2 {
            return Ok(());
        }
        cx.nontrivial = true;
        let toks = f.toks.clone();
        let h = hash_bytes(t.as_bytes());
        let pairs: Vec<(usize, usize)> = if n * n <= 150 {
            (0..n * n).map(|i| (i / n, i % n)).collect()
        } else {
            (0..150u64).map(|i| ((mix(h ^ i) % n as u64) as usize, (mix(h ^ i ^ 0xabcdef) % n as u64) as usize)).collect()
        };
        for (i, j) in pairs {
            let (a, b) = (&toks[i], &toks[j]);
            if a.cr || b.cr {
                continue;
            }
            cx.extra += 1;
            let Some(x) = a.span.join(b.span) else {
                return Err(format!("joining two spans of {} gives None", short(t)));
            };
            f.all(x, a.lo.min(b.lo), a.hi.max(b.hi), false).map_err(|m| format!("joined span: {m}"))?;
        }
        for k in &toks {
            if let Some(TokenTree::Group(g)) = &k.tree {
                if !k.cr {
                    delims(&mut f, g, k.lo, k.hi)?;
                }
            }
        }
        Ok(())
    }

    pub fn c14(env: Env) -> Vec<Phase> {
        let t = env.thorough;
        vec![
            tape("operations", env.n(150_000), check_ops),
            tape("line-columns", env.n(200_000), check_line_column),
            tape("invalidated", u64::from(ONCE), check_invalidated),
            text("literal-subspans", env.n(40_000), |s| gen::literal(s, false), check_all_subspans),
            text(
                "wide-literal-subspans",
                env.n(30_000),
                |s| {
                    let n = s.range(0, 6);
                    let body: String = (0..n).map(|_| *s.pick(&["é", "日", "😀", "a", "\\n", "\n", "\u{301}"])).collect();
                    match s.below(4) {
                        0 => format!("\"{body}\""),
                        1 => format!("r#\"{body}\"#é"),
                        2 => format!("c\"{body}\""),
                        _ => format!("1é{}", body.replace(['\\', '\n', '😀'], "")),
                    }
                },
                check_all_subspans,
            ),
            text(
                "long-literal-subspans",
                env.n(2_000),
                |s| {
                    let l = gen::literal(s, false);
                    gen::stretch(s, &l, 12)
                },
                check_all_subspans,
            ),
            text("stretched", env.n(8_000), gen::stretched, check_joins),
            text("stretched-far", env.n(300), |s| gen::stretched_to(s, 17), check_joins),
            text("tokens", env.n(40_000), gen::tokens, check_joins),
            text("wide", env.n(60_000), small_text, check_joins),
            text("mutated", env.n(60_000), gen::mutated, check_joins),
            words(check_joins),
            real_windows(env.n(15_000), check_joins),
            real_files(if t { 200 } else { 30 }, check_joins),
            enumerate(("enum-groups", &["(", ")", "[", "]", "{", "}", "é", " "], 6, 7), 0, t, check_joins),
            nesting(if t { 512 } else { 128 }, check_joins),
        ]
    }
}
