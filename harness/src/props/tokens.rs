//! C09 identifiers, C10 token constructors and accessors. Also the token
//! snapshots with spans shared by the history checks.

use super::common::*;
use super::Env;
use crate::engine::*;
use crate::ensure;
use crate::gen;
use crate::model;
use crate::reflex::{self, Delim, Tok};
use proc_macro2::{Delimiter, Group, Ident, Literal, Punct, Spacing, Span, TokenStream, TokenTree};
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::str::FromStr;

// ------------------------------------------------------------ identity

/// What can be observed of a span, enough to tell spans apart. Without
/// location support all spans look the same.
#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct Sid(pub String);

pub fn sid(s: Span) -> Sid {
    #[cfg(feature = "pm")]
    return Sid(format!("{s:?}"));
    #[cfg(all(feature = "spans", not(feature = "pm")))]
    {
        let r = s.byte_range();
        if r == (0..0) && s.source_text().is_none() {
            return Sid("call-site".to_owned());
        }
        return Sid(format!("{} {}..{}", s.file(), r.start, r.end));
    }
    #[cfg(all(not(feature = "spans"), not(feature = "pm")))]
    {
        let _ = s;
        Sid(String::new())
    }
}

/// A token tree with the identity of every span in it.
#[derive(Clone, Debug)]
pub struct Snap {
    pub kind: SnapKind,
    pub span: Sid,
}

impl PartialEq for Snap {
    fn eq(&self, o: &Snap) -> bool {
        // the compiler glues adjacent joint punctuation and gives it one span
        let glued = cfg!(feature = "pm") && matches!(self.kind, SnapKind::Punct(..));
        self.kind == o.kind && (glued || self.span == o.span)
    }
}

#[derive(Clone, PartialEq, Debug)]
pub enum SnapKind {
    Group(Delim, Vec<Snap>),
    Ident(String),
    Punct(char, bool),
    Lit(String),
}

pub fn snap_stream(ts: &TokenStream) -> Vec<Snap> {
    ts.clone().into_iter().map(|t| snap(&t)).collect()
}

pub fn snap(t: &TokenTree) -> Snap {
    let kind = match t {
        TokenTree::Group(g) => SnapKind::Group(model::delim_of(g.delimiter()), snap_stream(&g.stream())),
        TokenTree::Ident(i) => SnapKind::Ident(i.to_string()),
        TokenTree::Punct(p) => SnapKind::Punct(p.as_char(), p.spacing() == Spacing::Joint),
        TokenTree::Literal(l) => SnapKind::Lit(l.to_string()),
    };
    Snap {
        kind,
        span: sid(t.span()),
    }
}

pub fn show_snaps(v: &[Snap]) -> String {
    let mut o = String::new();
    for s in v {
        if o.len() > 1200 {
            o.push_str(" ...");
            break;
        }
        if !o.is_empty() {
            o.push(' ');
        }
        match &s.kind {
            SnapKind::Group(d, i) => o.push_str(&format!("{d:?}[{}]", show_snaps(i))),
            SnapKind::Ident(i) => o.push_str(i),
            SnapKind::Punct(c, j) => o.push_str(&format!("{c}{}", if *j { "(joint)" } else { "(alone)" })),
            SnapKind::Lit(l) => o.push_str(l),
        }
        if !s.span.0.is_empty() {
            o.push_str(&format!("@{}", s.span.0));
        }
    }
    o
}

/// Spans that are all different where spans can be told apart.
pub fn distinct_spans() -> Vec<Span> {
    let mut v = vec![Span::call_site()];
    if cfg!(feature = "pm") {
        v.extend(crate::pmspans::input_spans());
        return v;
    }
    for text in ["a bb + ( é ) \"日本\"", "x yy zzz"] {
        if let Ok(ts) = TokenStream::from_str(text) {
            fn walk(ts: TokenStream, v: &mut Vec<Span>) {
                for t in ts {
                    v.push(t.span());
                    match t {
                        TokenTree::Group(g) => walk(g.stream(), v),
                        // part of a token, and an empty place in it
                        TokenTree::Literal(l) => v.extend(l.subspan(1..4).into_iter().chain(l.subspan(4..4))),
                        _ => {}
                    }
                }
            }
            walk(ts, &mut v);
        }
    }
    v
}

// ------------------------------------------------------------------ C09

fn valid_ident(s: &str) -> bool {
    let mut c = s.chars();
    c.next().is_some_and(reflex::id_start) && c.all(reflex::id_continue)
}

fn new_ident(s: &str, raw: bool, span: Span) -> Result<Ident, String> {
    catch(|| if raw { Ident::new_raw(s, span) } else { Ident::new(s, span) })
}

fn hash_of(x: &impl Hash) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

pub fn check_ident_text(t: &str, cx: &mut Cx) -> R {
    let span = Span::call_site();
    let valid = valid_ident(t);
    let raw_valid = valid && !reflex::forbidden_raw(t);
    cx.nontrivial = !t.is_empty();
    cx.label(if valid { "valid" } else { "invalid" });
    for raw in [false, true] {
        let want = if raw { raw_valid } else { valid };
        let name = if raw { "Ident::new_raw" } else { "Ident::new" };
        match new_ident(t, raw, span) {
            Ok(i) => {
                ensure!(want, "{name}({}) returned {i} although it is not such an identifier", short(t));
                let p = if raw { format!("r#{t}") } else { t.to_owned() };
                ensure!(i.to_string() == p, "{name}({}) prints as {}", short(t), short(&i.to_string()));
                ensure!(i == *p.as_str() && i == p, "{name}({}) does not equal its own text", short(t));
                let other = if raw { t.to_owned() } else { format!("r#{t}") };
                ensure!(i != *other.as_str(), "{name}({}) equals {other:?}", short(t));
                ensure!(i == i.clone() && hash_of(&i) == hash_of(&i.clone()), "{name}({}) differs from its clone", short(t));
                // the same identifier, parsed
                if let Ok(ts) = TokenStream::from_str(&p) {
                    let v: Vec<TokenTree> = ts.into_iter().collect();
                    if let [TokenTree::Ident(j)] = &v[..] {
                        ensure!(
                            *j == i && i == *j && hash_of(j) == hash_of(&i) && j.cmp(&i).is_eq() && j.to_string() == p,
                            "{name}({}) and the identifier parsed from {} disagree",
                            short(t),
                            short(&p)
                        );
                    } else {
                        return Err(format!("{} parses as {} tokens, not as one identifier", short(&p), v.len()));
                    }
                } else {
                    return Err(format!("{name} accepts {} but {} does not parse", short(t), short(&p)));
                }
            }
            Err(p) => ensure!(!want, "{name}({}) panicked: {p}", short(t)),
        }
    }
    Ok(())
}

fn some_name(s: &mut Src) -> (String, bool) {
    let mut name = gen::ident_name(s);
    if s.chance(1, 4) {
        name = (*s.pick(&["r", "a", "b", "r_", "ra", "A", "é", "rb", "ab", "aa", "R", "ª", "a·", "ra·"])).to_owned();
    }
    if s.chance(1, 5) {
        // a long one, of a length around a power of two
        let n = (1usize << s.range(2, 8)) + s.below(4) - 2;
        let piece = name.clone();
        while name.len() < n {
            if s.chance(3, 4) {
                name.push_str(&piece);
            } else {
                name.push(*s.pick(&['a', 'b', '0', '_', 'é', 'Z']));
            }
            if piece.len() > 8 {
                name.push('z');
            }
        }
        if s.chance(1, 2) {
            while name.len() > n && name.chars().nth(1).is_some() {
                name.pop();
            }
        }
    }
    let raw = s.chance(1, 3) && gen::raw_ok(&name);
    (name, raw)
}

/// A name that differs little from the given one.
fn near_name(s: &mut Src, text: &str) -> (String, bool) {
    let raw = text.starts_with("r#");
    let name = text.strip_prefix("r#").unwrap_or(text);
    let mut c: Vec<char> = name.chars().collect();
    let n = c.len();
    let mut raw2 = raw;
    match s.below(7) {
        0 => {
            c.pop();
        }
        1 => c.push(*s.pick(&['a', 'b', '0', '_', 'é', if cfg!(feature = "pm") { 'ß' } else { '\u{301}' }, 'Z'])),
        2 => {
            let at = s.below(n);
            c[at] = *s.pick(&['a', 'b', '_', 'é', 'Z', '日', '9']);
        }
        3 => {
            let (i, j) = (s.below(n), s.below(n));
            c.swap(i, j);
        }
        4 => raw2 = !raw,
        5 => {
            let at = s.below(n);
            c.insert(at, *s.pick(&['a', 'b', '_', 'é']));
        }
        _ => {
            let at = s.below(n);
            c.truncate(at.max(1));
        }
    }
    let near: String = c.into_iter().collect();
    if !valid_ident(&near) {
        return (name.to_owned(), raw);
    }
    let raw2 = raw2 && gen::raw_ok(&near);
    (near, raw2)
}

fn some_ident(s: &mut Src, spans: &[Span]) -> (Ident, String) {
    let (name, raw) = some_name(s);
    make_ident(s, spans, name, raw)
}

fn make_ident(s: &mut Src, spans: &[Span], name: String, raw: bool) -> (Ident, String) {
    let text = if raw { format!("r#{name}") } else { name.clone() };
    let mut i = None;
    if s.chance(1, 3) {
        if let Ok(ts) = TokenStream::from_str(&text) {
            if let Some(TokenTree::Ident(j)) = ts.into_iter().next() {
                i = Some(j);
            }
        }
    }
    let mut i = i.unwrap_or_else(|| {
        let sp = *s.pick(spans);
        if raw {
            Ident::new_raw(&name, sp)
        } else {
            Ident::new(&name, sp)
        }
    });
    if s.chance(1, 3) {
        i.set_span(*s.pick(spans));
    }
    (i, text)
}

fn related(s: &mut Src, text: &str) -> String {
    match s.below(11) {
        9 | 10 => {
            let (name, raw) = near_name(s, text);
            if raw {
                format!("r#{name}")
            } else {
                name
            }
        }
        0 => text.to_owned(),
        1 => format!("r#{text}"),
        2 => text.strip_prefix("r#").unwrap_or(text).to_owned(),
        3 => format!("{text}a"),
        4 => {
            let mut c: Vec<char> = text.chars().collect();
            c.pop();
            c.into_iter().collect()
        }
        5 => String::new(),
        6 => {
            let n = s.range(1, 5);
            (0..n).map(|_| gen::any_char(s)).collect()
        }
        7 => (*s.pick(&["r", "r#", "ré", "é", "r\u{301}#", "日", "#", "r日", "a\u{301}", "rr#", "😀", "ré#"])).to_owned(),
        _ => format!("r#r#{text}"),
    }
}

/// Non-trivial: always (two identifiers and a string compared all ways).
pub fn check_ident_pair(s: &mut Src, cx: &mut Cx) -> R {
    let spans = if s.chance(1, 2) { distinct_spans() } else { vec![Span::call_site()] };
    let (a, ta) = some_ident(s, &spans);
    let (b, tb) = if s.chance(1, 4) {
        // same text again, by another route
        let name = ta.strip_prefix("r#").unwrap_or(&ta).to_owned();
        let raw = ta.starts_with("r#");
        let sp = *s.pick(&spans);
        (if raw { Ident::new_raw(&name, sp) } else { Ident::new(&name, sp) }, ta.clone())
    } else if s.chance(1, 2) {
        let (name, raw) = near_name(s, &ta);
        make_ident(s, &spans, name, raw)
    } else {
        some_ident(s, &spans)
    };
    let t = related(s, &ta);
    cx.nontrivial = true;
    if cx.want_sample {
        cx.sample = Some(format!("{ta} vs {tb} vs {t:?}"));
    }
    cx.label(if ta == tb { "equal" } else { "different" });
    ensure!(a.to_string() == ta, "{ta} prints as {a}");
    ensure!(b.to_string() == tb, "{tb} prints as {b}");
    ensure!((a == b) == (ta == tb), "{ta} == {tb} gives {}", a == b);
    ensure!((b == a) == (ta == tb), "{tb} == {ta} gives {}", b == a);
    ensure!((a != b) == (ta != tb), "{ta} != {tb} gives {}", a != b);
    ensure!(a.cmp(&b) == ta.cmp(&tb), "{ta} cmp {tb} gives {:?}", a.cmp(&b));
    ensure!(a.partial_cmp(&b) == Some(ta.cmp(&tb)), "{ta} partial_cmp {tb} gives {:?}", a.partial_cmp(&b));
    ensure!(b.cmp(&a) == tb.cmp(&ta), "{tb} cmp {ta} gives {:?}", b.cmp(&a));
    ensure!((a < b) == (ta < tb) && (a <= b) == (ta <= tb), "{ta} < {tb} disagrees");
    ensure!((a > b) == (ta > tb) && (a >= b) == (ta >= tb), "{ta} > {tb} disagrees");
    let (most, least) = (a.clone().max(b.clone()), a.clone().min(b.clone()));
    ensure!(most.to_string() == *(&ta).max(&tb) && least.to_string() == *(&ta).min(&tb), "the greatest or least of {ta} and {tb} is another");
    ensure!(
        (hash_of(&a) == hash_of(&b)) == (ta == tb),
        "hashes of {ta} and {tb} {}",
        if ta == tb { "differ" } else { "are equal" }
    );
    ensure!((a == *t.as_str()) == (ta == t), "{ta} == {t:?} gives {}", a == *t.as_str());
    ensure!((a == t) == (ta == t), "{ta} == String {t:?} gives {}", a == t);
    ensure!((a == &t[..]) == (ta == t), "{ta} == &str {t:?} gives {}", a == &t[..]);
    // as keys
    let mut h = std::collections::HashMap::new();
    h.insert(a.clone(), 1);
    ensure!(h.contains_key(&b) == (ta == tb), "hash map lookup of {tb} among {ta}");
    let mut m = std::collections::BTreeMap::new();
    m.insert(a.clone(), 1);
    ensure!(m.contains_key(&b) == (ta == tb), "ordered map lookup of {tb} among {ta}");
    // spans play no role
    let mut c = a.clone();
    for sp in &spans {
        c.set_span(*sp);
        ensure!(c == a && hash_of(&c) == hash_of(&a) && c.cmp(&a).is_eq() && c.to_string() == ta, "{ta} changed with its span");
    }
    Ok(())
}

/// formatting an identifier: width and the like apply to the text, raw or not
const IDENT_CTX: &[(&str, &str)] = &[("", ""), ("a", ""), ("_", ""), ("", "a"), ("é", "é"), ("self", ""), ("r#", "")];

pub fn c09(env: Env) -> Vec<Phase> {
    const ALPHA: &[&str] = &[
        "a", "_", "r", "#", "0", "s", "é", "\u{301}", "·", " ", "'", "-", "Self", "self", "crate", "super", "٣", "9",
    ];
    let k = IDENT_CTX.len() as u64;
    let step = if env.scale < 100 { 29 } else { 1 };
    vec![
        tape("pairs", env.n(1_000_000), check_ident_pair),
        text(
            "names",
            env.n(300_000),
            |s| {
                let n = gen::ident_text(s);
                if s.chance(1, 3) {
                    gen::mutate(s, &n)
                } else {
                    n
                }
            },
            check_ident_text,
        ),
        text("hot", env.n(200_000), gen::hot, check_ident_text),
        indexed(
            "enum-names",
            gen::total_over(ALPHA.len() as u64, if env.thorough { 5 } else if env.scale < 100 { 3 } else { 4 }),
            |i| Some(gen::nth_over(ALPHA, i)),
            check_ident_text,
        ),
        indexed(
            "all-characters",
            0x110000 / step * k,
            move |i| {
                let (a, b) = IDENT_CTX[(i % k) as usize];
                let c = char::from_u32((i / k * step) as u32)?;
                Some(format!("{a}{c}{b}"))
            },
            check_ident_text,
        ),
        text(
            "stretched",
            env.n(60_000),
            |s| {
                let n = gen::ident_text(s);
                let n = gen::stretch(s, &n, 12);
                if s.chance(1, 3) {
                    gen::mutate(s, &n)
                } else {
                    n
                }
            },
            check_ident_text,
        ),
        words(check_ident_text),
        indexed(
            "constant-lengths",
            gen::dict().nums.len() as u64 * 12,
            |i| {
                let n = (gen::dict().nums[(i / 12) as usize] as usize).saturating_add((i % 3) as usize).saturating_sub(1);
                if n > 70_000 {
                    return None;
                }
                Some(match i / 3 % 4 {
                    0 => "a".repeat(n),
                    1 => "é".repeat(n),
                    2 => format!("{}-", "a".repeat(n)),
                    _ => format!("_{}", "9".repeat(n)),
                })
            },
            check_ident_text,
        ),
        indexed(
            "lengths",
            4 * 40,
            |i| {
                let n = [0usize, 1, 2, 3, 7, 8, 9, 15, 16, 17, 21, 22, 23, 24, 25, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 65537, 100_000]
                    [(i / 4) as usize];
                Some(match i % 4 {
                    0 => "a".repeat(n),
                    1 => "é".repeat(n),
                    2 => format!("{}-", "a".repeat(n)),
                    _ => format!("_{}", "9".repeat(n)),
                })
            },
            check_ident_text,
        ),
    ]
}

// ------------------------------------------------------------------ C10

pub fn check_punct_char(t: &str, cx: &mut Cx) -> R {
    let mut it = t.chars();
    let (Some(c), None) = (it.next(), it.next()) else {
        return Ok(());
    };
    let want = reflex::PUNCT.contains(c);
    cx.nontrivial = true;
    for sp in [Spacing::Alone, Spacing::Joint] {
        match catch(|| Punct::new(c, sp)) {
            Ok(p) => {
                cx.label("accepted");
                ensure!(want, "Punct::new accepts {c:?}");
                ensure!(p.as_char() == c && p.spacing() == sp, "Punct::new({c:?}, {sp:?}) gives {:?} {:?}", p.as_char(), p.spacing());
                ensure!(p.to_string() == t, "punctuation {c:?} prints as {p}");
                ensure!(sid(p.span()) == sid(Span::call_site()), "a new punctuation's span is not the call site");
                let q = p.clone();
                ensure!(q.as_char() == c && q.spacing() == sp, "clone of punctuation differs");
                match TokenTree::from(p) {
                    TokenTree::Punct(p) => ensure!(p.as_char() == c && p.spacing() == sp, "converted punctuation differs"),
                    other => return Err(format!("punctuation converts into {other}")),
                }
            }
            Err(p) => {
                cx.label("refused");
                ensure!(!want, "Punct::new({c:?}) panicked: {p}");
            }
        }
    }
    Ok(())
}

enum Tk {
    G(Group),
    I(Ident),
    P(Punct),
    L(Literal),
    T(TokenTree),
}

impl Tk {
    fn tree(&self) -> TokenTree {
        match self {
            Tk::G(g) => TokenTree::from(g.clone()),
            Tk::I(g) => TokenTree::from(g.clone()),
            Tk::P(g) => TokenTree::from(g.clone()),
            Tk::L(g) => TokenTree::from(g.clone()),
            Tk::T(t) => t.clone(),
        }
    }
    fn span(&self) -> Span {
        match self {
            Tk::G(x) => x.span(),
            Tk::I(x) => x.span(),
            Tk::P(x) => x.span(),
            Tk::L(x) => x.span(),
            Tk::T(x) => x.span(),
        }
    }
    fn set_span(&mut self, s: Span) {
        match self {
            Tk::G(x) => x.set_span(s),
            Tk::I(x) => x.set_span(s),
            Tk::P(x) => x.set_span(s),
            Tk::L(x) => x.set_span(s),
            Tk::T(x) => x.set_span(s),
        }
    }
    fn dup(&self) -> Tk {
        match self {
            Tk::G(x) => Tk::G(x.clone()),
            Tk::I(x) => Tk::I(x.clone()),
            Tk::P(x) => Tk::P(x.clone()),
            Tk::L(x) => Tk::L(x.clone()),
            Tk::T(x) => Tk::T(x.clone()),
        }
    }
}

/// Histories over a pool of tokens: create, clone, wrap, take apart, set
/// spans; after every step every token must be what the model says.
/// Non-trivial: at least one span set while two or more tokens exist.
pub fn check_tokens(s: &mut Src, cx: &mut Cx) -> R {
    let spans = distinct_spans();
    let call = sid(Span::call_site());
    let mut pool: Vec<(Tk, Snap)> = Vec::new();
    let mut log = String::new();
    let steps = s.range(2, 24);
    for _ in 0..steps {
        let op = s.below(12);
        match op {
            0 => {
                let name = gen::ident_name(s);
                let raw = s.chance(1, 4) && gen::raw_ok(&name);
                let sp = *s.pick(&spans);
                let i = if raw { Ident::new_raw(&name, sp) } else { Ident::new(&name, sp) };
                let text = if raw { format!("r#{name}") } else { name };
                log.push_str(&format!("new identifier {text}; "));
                pool.push((
                    Tk::I(i),
                    Snap {
                        kind: SnapKind::Ident(text),
                        span: sid(sp),
                    },
                ));
            }
            1 => {
                // (the compiler turns a quote and a name into a lifetime)
                let c: Vec<char> = reflex::PUNCT.chars().filter(|&c| !cfg!(feature = "pm") || c != '\'').collect();
                let c = *s.pick(&c);
                let j = s.chance(1, 2);
                log.push_str(&format!("new punctuation {c}; "));
                pool.push((
                    Tk::P(Punct::new(c, if j { Spacing::Joint } else { Spacing::Alone })),
                    Snap {
                        kind: SnapKind::Punct(c, j),
                        span: call.clone(),
                    },
                ));
            }
            2 => {
                let l = super::values::random_literal(s);
                let t = l.to_string();
                log.push_str(&format!("new literal {}; ", short(&t)));
                pool.push((
                    Tk::L(l),
                    Snap {
                        kind: SnapKind::Lit(t),
                        span: call.clone(),
                    },
                ));
            }
            3 | 4 => {
                // a group around clones of some pool members
                let d = [Delim::Paren, Delim::Brace, Delim::Bracket, Delim::None][s.below(4)];
                let mut st = TokenStream::new();
                let mut m = Vec::new();
                for _ in 0..s.below(4).min(pool.len()) {
                    let (t, w) = &pool[s.below(pool.len())];
                    if matches!(&w.kind, SnapKind::Lit(l) if l.starts_with('-')) {
                        continue;
                    }
                    st.extend([t.tree()]);
                    m.push(w.clone());
                }
                log.push_str(&format!("new group of {}; ", m.len()));
                pool.push((
                    Tk::G(Group::new(model::delim_to(d), st)),
                    Snap {
                        kind: SnapKind::Group(d, m),
                        span: call.clone(),
                    },
                ));
            }
            5 if !pool.is_empty() => {
                let i = s.below(pool.len());
                log.push_str(&format!("clone #{i}; "));
                let c = (pool[i].0.dup(), pool[i].1.clone());
                pool.push(c);
            }
            6 if !pool.is_empty() => {
                // into a token tree and maybe back out again
                let i = s.below(pool.len());
                log.push_str(&format!("#{i} into a tree; "));
                let back = s.chance(1, 2);
                let (t, w) = pool.swap_remove(i);
                let tree = match t {
                    Tk::G(g) => TokenTree::from(g),
                    Tk::I(g) => TokenTree::from(g),
                    Tk::P(g) => TokenTree::from(g),
                    Tk::L(g) => TokenTree::from(g),
                    Tk::T(t) => t,
                };
                let t = if back {
                    match tree {
                        TokenTree::Group(g) => Tk::G(g),
                        TokenTree::Ident(g) => Tk::I(g),
                        TokenTree::Punct(g) => Tk::P(g),
                        TokenTree::Literal(g) => Tk::L(g),
                    }
                } else {
                    Tk::T(tree)
                };
                pool.push((t, w));
            }
            7 if !pool.is_empty() => {
                // a token out of a group
                let i = s.below(pool.len());
                let found = match (&pool[i].0, &pool[i].1.kind) {
                    (Tk::G(g), SnapKind::Group(_, m)) if !m.is_empty() => Some((g.stream(), m.clone())),
                    (Tk::T(TokenTree::Group(g)), SnapKind::Group(_, m)) if !m.is_empty() => Some((g.stream(), m.clone())),
                    _ => None,
                };
                if let Some((st, m)) = found {
                    let k = s.below(m.len());
                    log.push_str(&format!("token {k} of group #{i}; "));
                    match st.into_iter().nth(k) {
                        Some(t) => {
                            let mut w = m[k].clone();
                            if cfg!(feature = "pm") && matches!(w.kind, SnapKind::Punct(..)) {
                                w.span = sid(t.span());
                            }
                            pool.push((Tk::T(t), w));
                        }
                        None => return Err(format!("group lost a token: {log}")),
                    }
                }
            }
            _ if !pool.is_empty() => {
                let i = s.below(pool.len());
                let sp = *s.pick(&spans);
                log.push_str(&format!("set span of #{i} to {}; ", sid(sp).0));
                pool[i].0.set_span(sp);
                pool[i].1.span = sid(sp);
                if pool.len() > 1 {
                    cx.nontrivial = true;
                }
            }
            _ => {}
        }
        for (k, (t, w)) in pool.iter().enumerate() {
            cx.extra += 1;
            let got = snap(&t.tree());
            ensure!(
                got == *w,
                "token #{k} is {} instead of {} after: {log}",
                show_snaps(std::slice::from_ref(&got)),
                show_snaps(std::slice::from_ref(w))
            );
            ensure!(sid(t.span()) == w.span, "token #{k} reports another span than its tree after: {log}");
            match (t, &w.kind) {
                (Tk::G(g), SnapKind::Group(d, m)) => {
                    ensure!(model::delim_of(g.delimiter()) == *d, "group delimiter changed after: {log}");
                    ensure!(g.stream().is_empty() == m.is_empty(), "group emptiness changed after: {log}");
                    let _: Delimiter = g.delimiter();
                }
                (Tk::P(p), SnapKind::Punct(c, j)) => {
                    ensure!(p.as_char() == *c && (p.spacing() == Spacing::Joint) == *j, "punctuation changed after: {log}");
                }
                (Tk::I(i), SnapKind::Ident(n)) => ensure!(i.to_string() == *n, "identifier changed after: {log}"),
                (Tk::L(i), SnapKind::Lit(n)) => ensure!(i.to_string() == *n, "literal changed after: {log}"),
                (Tk::T(t), k) => {
                    let same = matches!(
                        (t, k),
                        (TokenTree::Group(_), SnapKind::Group(..))
                            | (TokenTree::Ident(_), SnapKind::Ident(_))
                            | (TokenTree::Punct(_), SnapKind::Punct(..))
                            | (TokenTree::Literal(_), SnapKind::Lit(_))
                    );
                    ensure!(same, "a token changed kind after: {log}");
                }
                _ => return Err(format!("a token changed kind after: {log}")),
            }
        }
    }
    if cx.want_sample {
        cx.sample = Some(log);
    }
    Ok(())
}

/// Spans of tokens inside parsed streams: set one, nothing else moves.
pub fn check_set_in_parsed(t: &str, cx: &mut Cx) -> R {
    let Ok(ts) = TokenStream::from_str(t) else {
        return Ok(());
    };
    let before = snap_stream(&ts);
    let spans = distinct_spans();
    let pick = spans[hash_bytes(t.as_bytes()) as usize % spans.len()];
    let trees: Vec<TokenTree> = ts.clone().into_iter().collect();
    let keep = trees.clone();
    let mut changed = trees;
    for (i, tt) in changed.iter_mut().enumerate() {
        cx.nontrivial = true;
        tt.set_span(pick);
        let mut want = before[i].clone();
        want.span = sid(pick);
        ensure!(snap(tt) == want, "setting a span changed more than the span of {}", short(&tt.to_string()));
    }
    let kept: Vec<Snap> = keep.iter().map(snap).collect();
    ensure!(kept == before, "setting spans changed clones made before (in {})", short(t));
    ensure!(snap_stream(&ts) == before, "setting spans of its tokens changed the stream {}", short(t));
    // put together again, the tokens have the new spans
    let n = changed.len();
    let again: TokenStream = changed.into_iter().collect();
    let got = snap_stream(&again);
    ensure!(got.len() == n && got.iter().all(|g| g.span == sid(pick)), "spans were not kept by collecting (in {})", short(t));
    Ok(())
}

/// group(delimiter, stream) keeps what it was given
fn check_group(s: &mut Src, cx: &mut Cx) -> R {
    let m = gen::wild_model(s, 2, 8);
    let spans = distinct_spans();
    let ts = model::build_stream(&m, s, &spans);
    let d = [Delim::Paren, Delim::Brace, Delim::Bracket, Delim::None][s.below(4)];
    let before = snap_stream(&ts);
    cx.nontrivial = !m.is_empty();
    if cx.want_sample {
        cx.sample = Some(format!("{d:?} {}", model::show(&m)));
    }
    let mut g = Group::new(model::delim_to(d), ts.clone());
    ensure!(model::delim_of(g.delimiter()) == d, "group created with {d:?} has {:?}", g.delimiter());
    ensure!(snap_stream(&g.stream()) == before, "group created from {} holds {}", show_snaps(&before), show_snaps(&snap_stream(&g.stream())));
    ensure!(sid(g.span()) == sid(Span::call_site()), "a new group's span is not the call site");
    let old = g.clone();
    let sp = *s.pick(&spans);
    g.set_span(sp);
    ensure!(sid(g.span()) == sid(sp), "group's span is not the one set");
    ensure!(snap_stream(&g.stream()) == before && model::delim_of(g.delimiter()) == d, "setting a group's span changed its contents");
    ensure!(sid(old.span()) == sid(Span::call_site()), "setting a group's span changed a clone");
    // extending what stream() gave does not touch the group
    let mut st = g.stream();
    st.extend([TokenTree::from(Punct::new('+', Spacing::Alone))]);
    ensure!(snap_stream(&g.stream()) == before, "extending group.stream() changed the group");
    ensure!(snap_stream(&ts) == before, "the stream a group was made from changed");
    Ok(())
}

pub fn c10(env: Env) -> Vec<Phase> {
    let step = if env.scale < 100 { 7 } else { 1 };
    vec![
        tape("token-histories", env.n(150_000), check_tokens),
        tape("groups", env.n(150_000), check_group),
        text("parsed", env.n(60_000), gen::tokens, check_set_in_parsed),
        text("parsed-mutated", env.n(60_000), gen::mutated, check_set_in_parsed),
        real_windows(env.n(10_000), check_set_in_parsed),
        indexed(
            "all-characters",
            0x110000 / step,
            move |i| char::from_u32(if i < 0x300 { i } else { i * step } as u32).map(|c| c.to_string()),
            check_punct_char,
        ),
    ]
}

#[allow(unused)]
fn unused(_: Tok) {}
