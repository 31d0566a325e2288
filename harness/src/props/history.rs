//! C11 streams as sequences, C12 clones and memory: model-based histories of
//! stream operations.

use super::common::*;
use super::tokens::*;
use super::Env;
use crate::engine::*;
use crate::ensure;
use crate::gen;
use crate::model;
use crate::reflex::Delim;
use proc_macro2::{token_stream, Delimiter, Group, Ident, Literal, Punct, Spacing, Span, TokenStream, TokenTree};
use std::fmt::Write as _;
use std::str::FromStr;

/// A token tree is added to a stream: negative literals become two tokens.
/// (Inside a macro the compiler does the same.)
fn added(w: &Snap) -> Vec<Snap> {
    match &w.kind {
        SnapKind::Lit(l) if l.starts_with('-') => vec![
            Snap {
                kind: SnapKind::Punct('-', false),
                span: w.span.clone(),
            },
            Snap {
                kind: SnapKind::Lit(l[1..].to_owned()),
                span: w.span.clone(),
            },
        ],
        _ => vec![w.clone()],
    }
}

pub struct World {
    streams: Vec<(TokenStream, Vec<Snap>)>,
    iters: Vec<(token_stream::IntoIter, Vec<Snap>)>,
    trees: Vec<(TokenTree, Snap)>,
    spans: Vec<Span>,
    pub log: String,
    verify_all: bool,
    grew_shared: bool,
    /// streams longer than this are not extended
    cap: usize,
}

const MAX_STREAM: usize = 120;

/// An iterator with a size hint that is true but says little, which may call
/// into the library while it is asked for the next item, or panic at the end.
struct Odd<T> {
    items: std::vec::IntoIter<T>,
    hint: usize,
    busy: bool,
    panics: bool,
}

impl<T> Iterator for Odd<T> {
    type Item = T;

    fn next(&mut self) -> Option<T> {
        if self.busy {
            let n = TokenStream::from_str("a (b) 1").map_or(0, |ts| ts.clone().into_iter().count());
            assert!(n == 3, "a text parsed inside an iterator has {n} tokens");
        }
        let next = self.items.next();
        if next.is_none() && self.panics {
            panic!("iterator");
        }
        next
    }

    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.items.len();
        match self.hint {
            0 => (0, None),
            1 => (n, Some(n)),
            2 => (0, Some(usize::MAX)),
            3 => (n, None),
            4 => (n / 2, Some(n + 1000)),
            _ => (0, Some(n)),
        }
    }
}

fn odd<T>(s: &mut Src, items: Vec<T>, panics: bool) -> Odd<T> {
    Odd {
        items: items.into_iter(),
        hint: s.below(6),
        busy: s.chance(1, 4),
        panics,
    }
}

impl World {
    fn new(verify_all: bool) -> World {
        World {
            streams: vec![(TokenStream::new(), Vec::new())],
            iters: Vec::new(),
            trees: Vec::new(),
            spans: distinct_spans(),
            log: String::new(),
            verify_all,
            grew_shared: false,
            cap: MAX_STREAM,
        }
    }

    fn tree(&mut self, s: &mut Src) -> (TokenTree, Snap) {
        if !self.trees.is_empty() && s.chance(1, 4) {
            let (t, w) = &self.trees[s.below(self.trees.len())];
            return (t.clone(), w.clone());
        }
        let call = sid(Span::call_site());
        let (mut t, mut w) = match s.below(10) {
            0..=2 => {
                let n = gen::IDENTS[s.below(gen::IDENTS.len())];
                let sp = *s.pick(&self.spans);
                (
                    TokenTree::from(Ident::new(n, sp)),
                    Snap {
                        kind: SnapKind::Ident(n.to_owned()),
                        span: sid(sp),
                    },
                )
            }
            3 | 4 => {
                // (the compiler turns a quote and a name into a lifetime)
                let c = *s.pick(&['+', '-', '=', if cfg!(feature = "pm") { ';' } else { '\'' }, '#', ',', '/']);
                let j = s.chance(1, 2);
                (
                    TokenTree::from(Punct::new(c, if j { Spacing::Joint } else { Spacing::Alone })),
                    Snap {
                        kind: SnapKind::Punct(c, j),
                        span: call,
                    },
                )
            }
            5 => {
                let n = s.below(50) as i32 - 25;
                let mut lspan = call;
                let (l, t) = match s.below(5) {
                    0 => (Literal::i32_suffixed(n), format!("{n}i32")),
                    1 => (Literal::i32_unsuffixed(n), format!("{n}")),
                    2 => (Literal::f64_unsuffixed(f64::from(n) + 0.5), format!("{:?}", f64::from(n) + 0.5)),
                    3 => {
                        let t = format!("-{}", ["1", "0x1f", "2.5e3", "7u8", "0"][s.below(5)]);
                        let l = Literal::from_str(&t).expect("negative literal");
                        lspan = sid(l.span());
                        (l, t)
                    }
                    _ => (Literal::i128_suffixed(-i128::from(n)), format!("{}i128", -n)),
                };
                (
                    TokenTree::from(l),
                    Snap {
                        kind: SnapKind::Lit(t),
                        span: lspan,
                    },
                )
            }
            6 => {
                let l = Literal::string("s\n");
                (
                    TokenTree::from(l),
                    Snap {
                        kind: SnapKind::Lit("\"s\\n\"".to_owned()),
                        span: call,
                    },
                )
            }
            _ => {
                let d = [Delim::Paren, Delim::Brace, Delim::Bracket, Delim::None][s.below(4)];
                let (st, m) = match s.below(3) {
                    0 => (TokenStream::new(), Vec::new()),
                    _ => {
                        let (st, m) = &self.streams[s.below(self.streams.len())];
                        if depth(m) > 6 || m.len() > 30 {
                            (TokenStream::new(), Vec::new())
                        } else {
                            (st.clone(), m.clone())
                        }
                    }
                };
                (
                    TokenTree::from(Group::new(model::delim_to(d), st)),
                    Snap {
                        kind: SnapKind::Group(d, m),
                        span: call,
                    },
                )
            }
        };
        if s.chance(1, 3) {
            let sp = *s.pick(&self.spans);
            t.set_span(sp);
            w.span = sid(sp);
        }
        if s.chance(1, 8) && self.trees.len() < 6 {
            self.trees.push((t.clone(), w.clone()));
        }
        (t, w)
    }

    fn some_trees(&mut self, s: &mut Src, max: usize) -> (Vec<TokenTree>, Vec<Snap>) {
        let n = s.below(max + 1);
        let mut a = Vec::new();
        let mut b = Vec::new();
        for _ in 0..n {
            let (t, w) = self.tree(s);
            a.push(t);
            b.extend(added(&w));
        }
        (a, b)
    }

    fn pick(&mut self, s: &mut Src) -> usize {
        s.below(self.streams.len())
    }

    /// A stream to give away: a clone of one of the pool, one taken out of it,
    /// or a new one, short or long.
    fn gift(&mut self, s: &mut Src, keep: usize, room: usize) -> Option<(TokenStream, Vec<Snap>, String)> {
        let k = self.pick(s);
        if self.streams[k].1.len() > room {
            return None;
        }
        Some(match s.below(6) {
            0 | 1 if k != keep && k + 1 == self.streams.len() => {
                let (ts, m) = self.streams.pop().expect("not empty");
                (ts, m, format!("#{k} itself"))
            }
            2 => {
                let (v, m) = self.some_trees(s, 3);
                if m.len() > room {
                    return None;
                }
                let n = m.len();
                (v.into_iter().collect(), m, format!("a new one of {n}"))
            }
            3 if self.cap > MAX_STREAM || s.chance(1, 3) => {
                let n = if self.cap > MAX_STREAM { gen::size(s, 11) } else { s.range(20, 70) };
                if n > room {
                    return None;
                }
                let (ts, m) = self.run(s, n);
                (ts, m, format!("a new one of {n}"))
            }
            _ => {
                let (ts, m) = &self.streams[k];
                (ts.clone(), m.clone(), format!("#{k}"))
            }
        })
    }

    /// n simple tokens
    fn run(&mut self, s: &mut Src, n: usize) -> (TokenStream, Vec<Snap>) {
        let sp = *s.pick(&self.spans);
        let trees = (0..n).map(|k| TokenTree::from(Ident::new(["a", "b", "c"][k % 3], sp)));
        let m = (0..n)
            .map(|k| Snap {
                kind: SnapKind::Ident(["a", "b", "c"][k % 3].to_owned()),
                span: sid(sp),
            })
            .collect();
        let ts = if s.chance(1, 2) {
            trees.collect()
        } else {
            let mut t = TokenStream::new();
            t.extend(trees);
            t
        };
        (ts, m)
    }

    fn add_stream(&mut self, ts: TokenStream, m: Vec<Snap>) {
        if self.streams.len() < 10 {
            self.streams.push((ts, m));
        }
    }

    fn step(&mut self, s: &mut Src) -> R {
        let op = s.below(29);
        let i = self.pick(s);
        let full = self.streams[i].1.len() > self.cap;
        match op {
            0 => {
                let ts = if s.chance(1, 2) { TokenStream::new() } else { TokenStream::default() };
                self.log.push_str("new; ");
                self.add_stream(ts, Vec::new());
            }
            1 => {
                let m = gen::model(s, 1, 5);
                let text = model::print(&m);
                if !readable(&m, &text) || (cfg!(feature = "pm") && text.contains('\'')) {
                    return Ok(());
                }
                let _ = write!(self.log, "parse {}; ", short(&text));
                let ts = TokenStream::from_str(&text).map_err(|_| format!("{} does not parse", short(&text)))?;
                // the tokens are known; their spans are what they report now
                let snaps = snap_stream(&ts);
                ensure!(model::same(ts.clone(), &m), "{} does not parse into the tokens it was printed from", short(&text));
                self.add_stream(ts, snaps);
            }
            2 => {
                let (t, w) = self.tree(s);
                let _ = write!(self.log, "stream from tree {}; ", show_snaps(std::slice::from_ref(&w)));
                self.add_stream(TokenStream::from(t), added(&w));
            }
            3 | 4 => {
                let (v, m) = self.some_trees(s, 6);
                let _ = write!(self.log, "collect {} trees; ", v.len());
                let ts: TokenStream = match s.below(4) {
                    0 => v.into_iter().collect(),
                    1 => odd(s, v, false).collect(),
                    2 => {
                        let k = v.len() / 2;
                        let mut a = v;
                        let b = a.split_off(k);
                        a.into_iter().chain(b).collect()
                    }
                    _ => v.iter().cloned().collect(),
                };
                self.add_stream(ts, m);
            }
            5 => {
                // collect streams
                let n = s.below(5);
                let mut v = Vec::new();
                let mut m = Vec::new();
                let mut names = String::new();
                for _ in 0..n {
                    if let Some((ts, tm, name)) = self.gift(s, 0, self.cap - m.len().min(self.cap)) {
                        let _ = write!(names, "{name}, ");
                        m.extend(tm);
                        v.push(ts);
                    }
                }
                let _ = write!(self.log, "collect {} streams {names}; ", v.len());
                let ts: TokenStream = if s.chance(1, 3) {
                    odd(s, v, false).collect()
                } else {
                    v.into_iter().collect()
                };
                self.add_stream(ts, m);
            }
            6..=8 if !full => {
                let (v, m) = self.some_trees(s, 4);
                let _ = write!(self.log, "extend #{i} by {} trees; ", v.len());
                let (st, sm) = &mut self.streams[i];
                match s.below(3) {
                    0 => st.extend(v),
                    1 => st.extend(odd(s, v, false)),
                    _ => {
                        for t in v {
                            st.extend(Some(t));
                        }
                    }
                }
                sm.extend(m);
                self.grew_shared = true;
            }
            9 | 10 if !full => {
                // extend by streams, one of them possibly a clone of itself
                let n = s.below(4);
                let mut v = Vec::new();
                let mut m = Vec::new();
                let mut names = String::new();
                for _ in 0..n {
                    if let Some((ts, tm, name)) = self.gift(s, i, self.cap - m.len().min(self.cap)) {
                        let _ = write!(names, "{name}, ");
                        m.extend(tm);
                        v.push(ts);
                    }
                }
                let _ = write!(self.log, "extend #{i} by streams {names}; ");
                let (st, sm) = &mut self.streams[i];
                if s.chance(1, 3) {
                    st.extend(odd(s, v, false));
                } else {
                    st.extend(v);
                }
                sm.extend(m);
                self.grew_shared = true;
            }
            11 if !full => {
                // single-kind extends
                let (v, m) = self.some_trees(s, 3);
                let _ = write!(self.log, "extend #{i} by {} single tokens; ", v.len());
                let (st, sm) = &mut self.streams[i];
                for t in v {
                    match t {
                        TokenTree::Group(g) => st.extend([g]),
                        TokenTree::Ident(g) => st.extend(vec![g]),
                        TokenTree::Punct(g) => st.extend(Some(g)),
                        TokenTree::Literal(g) => st.extend([g]),
                    }
                }
                sm.extend(m);
            }
            12 if !full => {
                // several of one kind at once
                let n = s.below(4);
                let call = sid(Span::call_site());
                let _ = write!(self.log, "extend #{i} by {n} of one kind; ");
                let (st, sm) = &mut self.streams[i];
                match s.below(4) {
                    0 => {
                        st.extend((0..n).map(|k| Punct::new('+', if k % 2 == 0 { Spacing::Joint } else { Spacing::Alone })));
                        sm.extend((0..n).map(|k| Snap {
                            kind: SnapKind::Punct('+', k % 2 == 0),
                            span: call.clone(),
                        }));
                    }
                    1 => {
                        let sp = *s.pick(&self.spans);
                        st.extend((0..n).map(|k| Ident::new(&format!("i{k}"), sp)));
                        sm.extend((0..n).map(|k| Snap {
                            kind: SnapKind::Ident(format!("i{k}")),
                            span: sid(sp),
                        }));
                    }
                    2 => {
                        st.extend((0..n).map(|k| Literal::i64_unsuffixed(1 - k as i64)));
                        for k in 0..n {
                            sm.extend(added(&Snap {
                                kind: SnapKind::Lit((1 - k as i64).to_string()),
                                span: call.clone(),
                            }));
                        }
                    }
                    _ => {
                        st.extend((0..n).map(|_| Group::new(Delimiter::None, TokenStream::new())));
                        sm.extend((0..n).map(|_| Snap {
                            kind: SnapKind::Group(Delim::None, Vec::new()),
                            span: call.clone(),
                        }));
                    }
                }
            }
            14 if self.streams.len() > 1 && s.chance(1, 3) => {
                let j = (i + 1 + s.below(self.streams.len() - 1)) % self.streams.len();
                let _ = write!(self.log, "clone #{i} over #{j}; ");
                let mut to = std::mem::take(&mut self.streams[j].0);
                to.clone_from(&self.streams[i].0);
                self.streams[j] = (to, self.streams[i].1.clone());
            }
            13 | 14 => {
                let _ = write!(self.log, "clone #{i}; ");
                let c = (self.streams[i].0.clone(), self.streams[i].1.clone());
                self.add_stream(c.0, c.1);
            }
            15 => {
                if self.iters.len() < 5 {
                    let consume = s.chance(1, 2) && self.streams.len() > 1;
                    let _ = write!(self.log, "iterate {}#{i}; ", if consume { "and consume " } else { "a clone of " });
                    let (st, m) = if consume {
                        self.streams.swap_remove(i)
                    } else {
                        (self.streams[i].0.clone(), self.streams[i].1.clone())
                    };
                    self.iters.push((st.into_iter(), m));
                }
            }
            16 | 17 => {
                if !self.iters.is_empty() {
                    let k = s.below(self.iters.len());
                    let n = s.range(1, 5);
                    let _ = write!(self.log, "advance iterator {k} by {n}; ");
                    let (it, m) = &mut self.iters[k];
                    for _ in 0..n {
                        let got = it.next();
                        if m.is_empty() {
                            ensure!(got.is_none(), "an exhausted iterator yields {:?} after: {}", got.map(|t| t.to_string()), self.log);
                        } else {
                            let w = m.remove(0);
                            match got {
                                None => return Err(format!("iterator ends early, {} expected, after: {}", show_snaps(&[w]), self.log)),
                                Some(t) => {
                                    let g = snap(&t);
                                    ensure!(
                                        g == w,
                                        "iterator yields {} instead of {} after: {}",
                                        show_snaps(&[g]),
                                        show_snaps(&[w]),
                                        self.log
                                    );
                                    if self.trees.len() < 6 && s.chance(1, 3) {
                                        self.trees.push((t, w));
                                    }
                                }
                            }
                        }
                    }
                }
            }
            23 | 24 => {
                // the other ways to walk
                if !self.iters.is_empty() {
                    let k = s.below(self.iters.len());
                    let how = s.below(8);
                    let n = s.below(6);
                    let _ = write!(self.log, "walk iterator {k} ({how}, {n}); ");
                    let (it, m) = &mut self.iters[k];
                    let c = it.clone();
                    let all = |v: Vec<TokenTree>| -> Vec<Snap> { v.iter().map(snap).collect() };
                    let (what, got, want): (&str, Vec<Snap>, Vec<Snap>) = match how {
                        0 | 1 => {
                            let got = it.nth(n);
                            let want: Vec<Snap> = m.get(n).cloned().into_iter().collect();
                            m.drain(..(n + 1).min(m.len()));
                            ("nth", all(got.into_iter().collect()), want)
                        }
                        2 => {
                            let c = c.count();
                            ensure!(c == m.len(), "count() is {c} with {} tokens left after: {}", m.len(), self.log);
                            return Ok(());
                        }
                        3 => ("last", all(c.last().into_iter().collect()), m.last().cloned().into_iter().collect()),
                        4 => (
                            "fold",
                            c.fold(Vec::new(), |mut v, t| {
                                v.push(snap(&t));
                                v
                            }),
                            m.clone(),
                        ),
                        5 => ("skip", all(c.skip(n).collect()), m.iter().skip(n).cloned().collect()),
                        6 => ("step_by", all(c.step_by(n + 1).collect()), m.iter().step_by(n + 1).cloned().collect()),
                        _ => {
                            let got = all(it.by_ref().take(n).collect());
                            let want = m.drain(..n.min(m.len())).collect();
                            ("take", got, want)
                        }
                    };
                    ensure!(got == want, "{what}({n}) gives {} instead of {} after: {}", show_snaps(&got), show_snaps(&want), self.log);
                }
            }
            25 if !full => {
                // many at once
                let n = s.range(10, 70);
                let (ts, m) = self.run(s, n);
                let _ = write!(self.log, "extend #{i} by {n} names; ");
                let (st, sm) = &mut self.streams[i];
                if s.chance(1, 2) {
                    st.extend(ts);
                } else {
                    st.extend([ts]);
                }
                sm.extend(m);
            }
            26 => {
                // through a group
                if self.streams.len() > 1 {
                    let last = self.streams.len() - 1;
                    let (ts, m) = self.streams.pop().expect("not empty");
                    let _ = write!(self.log, "#{last} into a group and out; ");
                    let g = Group::new(Delimiter::Parenthesis, ts);
                    let out = g.stream();
                    if s.chance(1, 2) {
                        drop(g);
                    } else {
                        let w = Snap {
                            kind: SnapKind::Group(Delim::Paren, m.clone()),
                            span: sid(Span::call_site()),
                        };
                        if self.trees.len() < 6 && depth(&m) < 6 && m.len() < 30 {
                            self.trees.push((TokenTree::from(g), w));
                        }
                    }
                    self.add_stream(out, m);
                }
            }
            18 if self.iters.len() > 1 && s.chance(1, 2) => {
                let k = s.below(self.iters.len());
                let (mut to, _) = self.iters.swap_remove(k);
                let k = s.below(self.iters.len());
                let _ = write!(self.log, "clone iterator {k} over another; ");
                to.clone_from(&self.iters[k].0);
                let m = self.iters[k].1.clone();
                self.iters.push((to, m));
            }
            22 if self.trees.len() > 1 && s.chance(1, 2) => {
                let k = s.below(self.trees.len());
                let (mut to, _) = self.trees.swap_remove(k);
                let k = s.below(self.trees.len());
                let _ = write!(self.log, "clone tree {k} over another; ");
                match (&mut to, &self.trees[k].0) {
                    (TokenTree::Group(a), TokenTree::Group(b)) => a.clone_from(b),
                    (TokenTree::Ident(a), TokenTree::Ident(b)) => a.clone_from(b),
                    (TokenTree::Punct(a), TokenTree::Punct(b)) => a.clone_from(b),
                    (TokenTree::Literal(a), TokenTree::Literal(b)) => a.clone_from(b),
                    (a, b) => a.clone_from(b),
                }
                let m = self.trees[k].1.clone();
                self.trees.push((to, m));
            }
            18 => {
                if !self.iters.is_empty() && self.iters.len() < 5 {
                    let k = s.below(self.iters.len());
                    let _ = write!(self.log, "clone iterator {k}; ");
                    let c = (self.iters[k].0.clone(), self.iters[k].1.clone());
                    self.iters.push(c);
                }
            }
            19 => {
                // the rest of an iterator goes into a stream
                if !self.iters.is_empty() {
                    let k = s.below(self.iters.len());
                    let (it, m) = self.iters.swap_remove(k);
                    let m: Vec<Snap> = m.iter().flat_map(added).collect();
                    if full || s.chance(1, 2) {
                        let _ = write!(self.log, "collect the rest of iterator {k}; ");
                        let ts: TokenStream = it.collect();
                        self.add_stream(ts, m);
                    } else {
                        let _ = write!(self.log, "extend #{i} by the rest of iterator {k}; ");
                        self.streams[i].0.extend(it);
                        self.streams[i].1.extend(m);
                    }
                }
            }
            20 => {
                match s.below(3) {
                    0 if self.streams.len() > 1 => {
                        let _ = write!(self.log, "drop #{i}; ");
                        self.streams.swap_remove(i);
                    }
                    1 if !self.iters.is_empty() => {
                        let k = s.below(self.iters.len());
                        let _ = write!(self.log, "drop iterator {k}; ");
                        self.iters.swap_remove(k);
                    }
                    _ if !self.trees.is_empty() => {
                        let k = s.below(self.trees.len());
                        let _ = write!(self.log, "drop tree {k}; ");
                        self.trees.swap_remove(k);
                    }
                    _ => {}
                }
            }
            21 => {
                // out of a group
                if !self.trees.is_empty() {
                    let k = s.below(self.trees.len());
                    if let (TokenTree::Group(g), SnapKind::Group(_, m)) = (&self.trees[k].0, &self.trees[k].1.kind) {
                        let _ = write!(self.log, "stream of the group in tree {k}; ");
                        let c = (g.stream(), m.clone());
                        self.add_stream(c.0, c.1);
                    }
                }
            }
            22 => {
                // a tree of our own gets another span
                if !self.trees.is_empty() {
                    let k = s.below(self.trees.len());
                    let sp = *s.pick(&self.spans);
                    let _ = write!(self.log, "set span of tree {k}; ");
                    self.trees[k].0.set_span(sp);
                    self.trees[k].1.span = sid(sp);
                }
            }
            _ => {
                // an iterator that panics half way while a stream is extended
                if !full && s.chance(1, 3) && !cfg!(feature = "pm") {
                    let old = self.streams[i].1.clone();
                    let mut items = Vec::new();
                    let r = if s.chance(1, 2) {
                        let (v, _) = self.some_trees(s, 3);
                        let _ = write!(self.log, "extend #{i} by {} trees and a panic; ", v.len());
                        for t in &v {
                            items.extend(added(&snap(t)));
                        }
                        let it = odd(s, v, true);
                        let st = &mut self.streams[i].0;
                        catch(|| st.extend(it))
                    } else {
                        let mut v = Vec::new();
                        for _ in 0..s.below(4) {
                            if let Some((ts, tm, _)) = self.gift(s, i, 40) {
                                items.extend(tm);
                                v.push(ts);
                            }
                        }
                        let _ = write!(self.log, "extend #{i} by {} streams and a panic; ", v.len());
                        let it = odd(s, v, true);
                        let st = &mut self.streams[i].0;
                        catch(|| st.extend(it))
                    };
                    ensure!(r.is_err(), "a panic of the iterator was swallowed");
                    let now = snap_stream(&self.streams[i].0);
                    ensure!(
                        now.len() >= old.len()
                            && now.len() <= old.len() + items.len()
                            && now[..old.len()] == old[..]
                            && now[old.len()..] == items[..now.len() - old.len()],
                        "after a panic in the iterator, stream #{i} holds {} (before: {}) after: {}",
                        show_snaps(&now),
                        show_snaps(&old),
                        self.log
                    );
                    self.streams[i].1 = now;
                }
            }
        }
        Ok(())
    }

    fn verify(&self, cx: &mut Cx) -> R {
        for (k, (ts, m)) in self.streams.iter().enumerate() {
            cx.extra += 1;
            ensure!(ts.is_empty() == m.is_empty(), "stream #{k}: is_empty() is {} with {} tokens after: {}", ts.is_empty(), m.len(), self.log);
            let it = ts.clone().into_iter();
            let (lo, hi) = it.size_hint();
            ensure!(
                hint_ok((lo, hi), m.len()),
                "stream #{k}: size hint {:?} with {} tokens after: {}",
                (lo, hi),
                m.len(),
                self.log
            );
            let got: Vec<Snap> = it.map(|t| snap(&t)).collect();
            ensure!(
                got == *m,
                "stream #{k} holds\n    {}\n  instead of\n    {}\n  after: {}",
                show_snaps(&got),
                show_snaps(m),
                self.log
            );
        }
        for (k, (it, m)) in self.iters.iter().enumerate() {
            cx.extra += 1;
            let (lo, hi) = it.size_hint();
            ensure!(
                hint_ok((lo, hi), m.len()),
                "iterator {k}: size hint {:?} with {} tokens left after: {}",
                (lo, hi),
                m.len(),
                self.log
            );
            let got: Vec<Snap> = it.clone().map(|t| snap(&t)).collect();
            ensure!(
                got == *m,
                "iterator {k} yields\n    {}\n  instead of\n    {}\n  after: {}",
                show_snaps(&got),
                show_snaps(m),
                self.log
            );
        }
        for (k, (t, m)) in self.trees.iter().enumerate() {
            let got = snap(t);
            ensure!(
                got == *m,
                "tree {k} is {} instead of {} after: {}",
                show_snaps(&[got]),
                show_snaps(std::slice::from_ref(m)),
                self.log
            );
        }
        Ok(())
    }
}

/// Outside a macro the number of tokens left is known exactly.
fn hint_ok((lo, hi): (usize, Option<usize>), n: usize) -> bool {
    if cfg!(feature = "pm") {
        lo <= n && hi.map_or(true, |h| h >= n)
    } else {
        lo == n && hi == Some(n)
    }
}

fn depth(m: &[Snap]) -> usize {
    m.iter()
        .map(|s| match &s.kind {
            SnapKind::Group(_, i) => 1 + depth(i),
            _ => 0,
        })
        .max()
        .unwrap_or(0)
}

/// Non-trivial: a stream was extended and at least eight operations ran.
pub fn check_history(s: &mut Src, cx: &mut Cx) -> R {
    let mut w = World::new(true);
    let n = 2 + s.skewed(40);
    for k in 0..n {
        w.step(s)?;
        if w.verify_all || k % 4 == 3 {
            w.verify(cx)?;
        }
    }
    w.verify(cx)?;
    cx.nontrivial = n >= 8 && w.grew_shared;
    if cx.want_sample {
        cx.sample = Some(w.log.clone());
    }
    Ok(())
}

/// Long streams, and streams with many clones.
fn large_body(s: &mut Src, cx: &mut Cx) -> R {
    let mut w = World::new(false);
    w.cap = 4000;
    for _ in 0..s.range(1, 3) {
        let n = gen::size(s, 11);
        let (ts, m) = w.run(s, n);
        let _ = write!(w.log, "{n} tokens; ");
        w.add_stream(ts, m);
    }
    let k = w.pick(s);
    let (orig, m) = (w.streams[k].0.clone(), w.streams[k].1.clone());
    let n = gen::size(s, 10);
    let mut clones: Vec<TokenStream> = (0..n).map(|_| orig.clone()).collect();
    let mut iters: Vec<token_stream::IntoIter> = (0..n.min(100)).map(|_| orig.clone().into_iter()).collect();
    let _ = write!(w.log, "{n} clones of #{k}; ");
    let steps = s.range(2, 14);
    for _ in 0..steps {
        w.step(s)?;
        if !clones.is_empty() && s.chance(1, 2) {
            let i = s.below(clones.len());
            clones.swap_remove(i);
        }
        if s.chance(1, 3) {
            if let Some(c) = clones.last_mut() {
                c.extend([TokenTree::from(Punct::new('+', Spacing::Alone))]);
                clones.pop();
            }
        }
        w.verify(cx)?;
    }
    for c in [clones.first(), clones.get(n / 2), clones.last()].into_iter().flatten() {
        let got = snap_stream(c);
        ensure!(got == m, "one of {n} clones holds {} instead of {} after: {}", show_snaps(&got), show_snaps(&m), w.log);
    }
    if let Some(it) = iters.pop() {
        let got: Vec<Snap> = it.map(|t| snap(&t)).collect();
        ensure!(got == m, "one of many iterators yields {} instead of {} after: {}", show_snaps(&got), show_snaps(&m), w.log);
    }
    drop(clones);
    let got = snap_stream(&orig);
    ensure!(got == m, "a stream with {n} clones holds {} instead of {} after: {}", show_snaps(&got), show_snaps(&m), w.log);
    w.verify(cx)?;
    cx.nontrivial = m.len() > 100 || n > 100;
    if cx.want_sample {
        cx.sample = Some(w.log.clone());
    }
    Ok(())
}

fn check_large_leak(s: &mut Src, cx: &mut Cx) -> R {
    leak_free(s, cx, large_body)
}

/// Streams taken apart and put together again in every simple way.
fn check_rebuild(t: &str, cx: &mut Cx) -> R {
    let Ok(ts) = TokenStream::from_str(t) else {
        cx.label("rejected");
        return Ok(());
    };
    let want = snap_stream(&ts);
    cx.nontrivial = want.len() >= 2;
    let cmp = |what: &str, x: &TokenStream| -> R {
        let got = snap_stream(x);
        ensure!(got == want, "{what}: {} instead of {} (from {})", show_snaps(&got), show_snaps(&want), short(t));
        ensure!(x.is_empty() == want.is_empty(), "{what}: wrong emptiness (from {})", short(t));
        Ok(())
    };
    cmp("collected trees", &ts.clone().into_iter().collect())?;
    cmp("collected one-token streams", &ts.clone().into_iter().map(TokenStream::from).collect())?;
    let mut e = TokenStream::new();
    for t in ts.clone() {
        e.extend([t]);
    }
    cmp("extended by trees", &e)?;
    let mut e = TokenStream::new();
    e.extend([ts.clone()]);
    cmp("extended by the stream", &e)?;
    let n = want.len();
    let k = hash_bytes(t.as_bytes()) as usize % (n + 1);
    let mut it = ts.clone().into_iter();
    let mut a: TokenStream = it.by_ref().take(k).collect();
    let (lo, hi) = it.size_hint();
    ensure!(hint_ok((lo, hi), n - k), "size hint {:?} with {} of {n} left (from {})", (lo, hi), n - k, short(t));
    let rest = it.clone();
    a.extend(it);
    cmp("first tokens collected, the rest extended", &a)?;
    ensure!(rest.count() == n - k, "a cloned iterator yields another number of tokens (from {})", short(t));
    cmp("group contents", &Group::new(Delimiter::None, ts.clone()).stream())?;
    let c = ts.clone();
    let both: TokenStream = [ts.clone(), c.clone()].into_iter().collect();
    ensure!(both.into_iter().count() == 2 * n, "a stream collected twice has another number of tokens (from {})", short(t));
    cmp("a clone", &c)?;
    cmp("the stream itself", &ts)
}

pub fn c11(env: Env) -> Vec<Phase> {
    vec![
        tape("histories", env.n(150_000), check_history),
        tape("large", env.n(1_500), large_body),
        words(check_rebuild),
        text("tokens", env.n(100_000), gen::tokens, check_rebuild),
        text("mutated", env.n(100_000), gen::mutated, check_rebuild),
        real_windows(env.n(20_000), check_rebuild),
        real_files(if env.thorough { 100 } else { 30 }, |t, cx| {
            // (every place of a text is looked up many times over)
            if t.len() > 20_000 {
                return Ok(());
            }
            check_rebuild(t, cx)
        }),
        indexed(
            "lengths",
            600,
            |i| {
                let n = if i < 400 { i as usize } else { 1 << ((i - 400) % 13) };
                Some(match i % 3 {
                    0 => "a ".repeat(n),
                    1 => "() ".repeat(n),
                    _ => "+ 1".repeat(n),
                })
            },
            check_rebuild,
        ),
    ]
}

// ------------------------------------------------------------------ C12

/// A history, then everything is dropped in random order; what this thread
/// allocated for it must all be gone.
fn leak_free(s: &mut Src, cx: &mut Cx, body: fn(&mut Src, &mut Cx) -> R) -> R {
    body(s, cx)?;
    if cfg!(feature = "pm") {
        return Ok(());
    }
    // the same choices again, measured; the first run may have grown caches
    // of the thread, and so may, once more, a run after a reset
    let choices = s.used().to_vec();
    let mut diff = (0, 0);
    for _ in 0..4 {
        reset();
        let before = crate::alloc::live();
        {
            let mut again = Src::replay(choices.clone());
            body(&mut again, &mut Cx::new())?;
        }
        reset();
        let after = crate::alloc::live();
        if after.0 <= before.0 && after.1 <= before.1 {
            return Ok(());
        }
        diff = (after.0 - before.0, after.1 - before.1);
    }
    Err(format!("{} bytes in {} blocks are still allocated after every value was dropped", diff.0, diff.1))
}

fn leak_history_body(s: &mut Src, cx: &mut Cx) -> R {
    let mut w = World::new(false);
    let n = 4 + s.skewed(36);
    for _ in 0..n {
        w.step(s)?;
    }
    w.verify(cx)?;
    cx.nontrivial = n >= 8;
    if cx.want_sample {
        cx.sample = Some(w.log.clone());
    }
    // drop in random order
    let World { mut streams, mut iters, mut trees, .. } = w;
    loop {
        let total = streams.len() + iters.len() + trees.len();
        if total == 0 {
            break;
        }
        let k = s.below(total);
        if k < streams.len() {
            streams.swap_remove(k);
        } else if k < streams.len() + iters.len() {
            iters.swap_remove(k - streams.len());
        } else {
            trees.swap_remove(k - streams.len() - iters.len());
        }
        // what is left is untouched
        if let Some((ts, m)) = streams.first() {
            let got = snap_stream(ts);
            ensure!(got == *m, "dropping other values changed a stream to {} from {}", show_snaps(&got), show_snaps(m));
        }
        if let Some((it, m)) = iters.first() {
            let got: Vec<Snap> = it.clone().map(|t| snap(&t)).collect();
            ensure!(got == *m, "dropping other values changed an iterator to {} from {}", show_snaps(&got), show_snaps(m));
        }
    }
    Ok(())
}

fn check_leak_history(s: &mut Src, cx: &mut Cx) -> R {
    leak_free(s, cx, leak_history_body)
}

fn leak_text_body(s: &mut Src, cx: &mut Cx) -> R {
    let t = match s.below(3) {
        0 => gen::tokens(s),
        1 => gen::mutated(s),
        _ => gen::sloppy(s),
    };
    cx.nontrivial = !t.is_empty();
    if cx.want_sample {
        cx.sample = Some(t.clone());
    }
    match TokenStream::from_str(&t) {
        Ok(ts) => {
            cx.label("accepted");
            let a = ts.clone();
            let text = ts.to_string();
            let mut it = a.into_iter();
            let x = it.next();
            let _ = format!("{ts:?}");
            let mut b = ts.clone();
            b.extend(x.clone());
            drop(ts);
            let _ = text.len();
            let rest: TokenStream = it.collect();
            drop(b);
            let _ = rest.to_string();
        }
        Err(e) => {
            cx.label("rejected");
            let _ = e.to_string();
            let _ = format!("{e:?}");
        }
    }
    let _ = Literal::from_str(&t).map(|l| l.to_string());
    Ok(())
}

fn check_leak_text(s: &mut Src, cx: &mut Cx) -> R {
    leak_free(s, cx, leak_text_body)
}

/// Deeply nested streams, built, shared, opened and dropped on a small stack.
fn check_deep(s: &mut Src, cx: &mut Cx) -> R {
    let max = if cfg!(feature = "asan") { 3_000 } else { 60_000 };
    let n = match s.below(3) {
        0 => s.range(1, 40),
        1 => s.range(100, 3000),
        _ => s.range(3000, max),
    };
    cx.nontrivial = n > 1000;
    let delims = [Delimiter::Parenthesis, Delimiter::Brace, Delimiter::Bracket, Delimiter::None];
    let route = s.below(4);
    let side = s.below(10);
    let h = s.u64();
    // what stands beside the nested group, per level
    let beside = |k: usize| if side == 9 { (mix(h ^ k as u64) % 9) as usize } else { side };
    let share_every = [0, 1, 7, 997][s.below(4)];
    if cx.want_sample {
        cx.sample = Some(format!("depth {n}, route {route}, siblings {side}, a clone kept of every {share_every}th level"));
    }
    let mut kept: Vec<TokenStream> = Vec::new();
    let ts = match route {
        0 => {
            // parsed
            let (a, b) = [("(", ")"), ("[", "]"), ("{", "}")][s.below(3)];
            let sides = [("", ""), ("x ", ""), ("", " y"), ("x+", "1 "), ("()", ""), ("", "[]"), ("(x)", "{y [z]}"), ("[[] x]{}", ""), ("", "((x))y")];
            let mut t = String::with_capacity(n * 8);
            for k in 0..n {
                t.push_str(a);
                t.push_str(sides[beside(k)].0);
            }
            for k in (0..n).rev() {
                t.push_str(sides[beside(k)].1);
                t.push_str(b);
            }
            TokenStream::from_str(&t).map_err(|_| "nested text was rejected".to_owned())?
        }
        _ => {
            let d = delims[s.below(4)];
            let mixed = s.chance(1, 2);
            let mut cur = TokenStream::new();
            for k in 0..n {
                if share_every > 0 && k % share_every == 0 && kept.len() < 50 {
                    kept.push(cur.clone());
                }
                let d = if mixed { delims[(mix(h ^ k as u64 ^ 0x5555) % 4) as usize] } else { d };
                let side = beside(k);
                let twin = (side == 6).then(|| TokenTree::from(Group::new(d, cur.clone())));
                let g = TokenTree::from(Group::new(d, cur));
                let small = || {
                    let x = TokenTree::from(Ident::new("x", Span::call_site()));
                    TokenTree::from(Group::new(d, TokenStream::from(x)))
                };
                let empty = || TokenTree::from(Group::new(d, TokenStream::new()));
                cur = match side {
                    0 => TokenStream::from(g),
                    1 => {
                        let mut t = TokenStream::new();
                        t.extend([TokenTree::from(Ident::new("x", Span::call_site())), g]);
                        t
                    }
                    2 => [g, TokenTree::from(Punct::new('+', Spacing::Alone))].into_iter().collect(),
                    3 => {
                        let mut t = TokenStream::from(g);
                        t.extend([TokenStream::from(TokenTree::from(Literal::u8_unsuffixed(1)))]);
                        t
                    }
                    4 => [empty(), g].into_iter().collect(),
                    5 => [g, empty()].into_iter().collect(),
                    // two groups with the same contents
                    6 => twin.into_iter().chain([g]).collect(),
                    7 => [small(), empty(), g].into_iter().collect(),
                    _ => [g, small(), small()].into_iter().collect(),
                };
            }
            cur
        }
    };
    // clone, iterate one level, extend, drop in some order
    let c = ts.clone();
    let mut it = ts.clone().into_iter();
    let mut inner = None;
    for t in c.clone() {
        if let TokenTree::Group(g) = t {
            inner = Some(g);
        }
    }
    let mut d = c.clone();
    d.extend([c.clone()]);
    let first = it.next();
    ensure!(first.is_some(), "a nested stream lost its tokens");
    match s.below(5) {
        0 => {
            drop(ts);
            drop(c);
            drop(d);
            drop(it);
            drop(inner);
            drop(first);
        }
        1 => {
            drop(first);
            drop(inner);
            drop(it);
            drop(d);
            drop(c);
            drop(ts);
        }
        2 => {
            let g = Group::new(Delimiter::None, ts);
            drop(c);
            drop(it);
            drop(d);
            drop(first);
            drop(inner);
            let mut g2 = g.clone();
            drop(g);
            g2.set_span(Span::call_site());
            let t = TokenTree::from(g2);
            drop(t);
        }
        3 => {
            // walk down, dropping the outside
            drop((ts, c, d, it, first));
            let mut cur = inner;
            let mut steps = 0;
            while let Some(g) = cur {
                steps += 1;
                if steps > 200 {
                    break;
                }
                cur = g.stream().into_iter().find_map(|t| match t {
                    TokenTree::Group(g) => Some(g),
                    _ => None,
                });
            }
        }
        _ => {
            // unwinding drops them too
            let r = catch(move || {
                let _own = (ts, it, d, inner, first);
                if !_own.0.is_empty() {
                    panic!("unwind");
                }
            });
            ensure!(r.is_err(), "nested stream is empty");
            drop(c);
        }
    }
    while !kept.is_empty() {
        let k = s.below(kept.len());
        kept.swap_remove(k);
    }
    Ok(())
}

fn check_deep_leak(s: &mut Src, cx: &mut Cx) -> R {
    check_deep(s, cx)
}

/// nested text that is rejected at the end
fn check_deep_reject(s: &mut Src, cx: &mut Cx) -> R {
    let n = if cfg!(feature = "asan") { s.range(10, 2000) } else { s.range(1000, 60_000) };
    cx.nontrivial = true;
    let open = ["(", "[x ", "{ 1 +", "()(", "[x]{y}[", "{{(x)}"][s.below(6)];
    let end = ["", "'", "\"", ")", "\\", "}"][s.below(6)];
    let t = open.repeat(n) + end;
    if cx.want_sample {
        cx.sample = Some(format!("{open:?} * {n} + {end:?}"));
    }
    match TokenStream::from_str(&t) {
        Ok(_) => Err(format!("{n} unclosed delimiters were accepted")),
        Err(e) => {
            let _ = e.to_string();
            Ok(())
        }
    }
}

pub fn c12(env: Env) -> Vec<Phase> {
    vec![
        tape("histories", env.n(60_000), check_history),
        tape("histories-leak", env.n(120_000), check_leak_history),
        tape("parse-leak", env.n(150_000), check_leak_text),
        tape("large", env.n(600), check_large_leak),
        tape("deep", env.n(1_500), check_deep_leak),
        tape("deep-rejected", env.n(200), check_deep_reject),
    ]
}
