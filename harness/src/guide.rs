//! Coverage-guided search over the same cases: inputs that reach something new
//! in the instrumented library are kept and mutated further. Only in builds
//! where the library was compiled with coverage counters (feature `cov`).

use crate::engine::*;
use crate::gen;
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::time::{Duration, Instant};

static START: AtomicUsize = AtomicUsize::new(0);
static STOP: AtomicUsize = AtomicUsize::new(0);

const CMP: usize = 1 << 16;
static mut CMPS: [u8; CMP] = [0; CMP];
static mut TOUCHED: [u32; 4096] = [0; 4096];
static mut NTOUCHED: usize = 0;
/// operands met lately, as material for mutations
static mut RING: [u64; 256] = [0; 256];
static mut RINGPOS: usize = 0;

#[cfg(feature = "cov")]
mod callbacks {
    use super::*;

    #[no_mangle]
    extern "C" fn __sanitizer_cov_8bit_counters_init(start: *mut u8, stop: *mut u8) {
        START.store(start as usize, Ordering::Relaxed);
        STOP.store(stop as usize, Ordering::Relaxed);
    }

    fn cmp(site: u64, a: u64, b: u64) {
        let d = a.abs_diff(b);
        let dist = (64 - d.leading_zeros()).min(15) as usize;
        let i = ((mix(site) as usize & 0xfff) << 4) | dist;
        unsafe {
            if CMPS[i] == 0 && NTOUCHED < 4096 {
                CMPS[i] = 1;
                TOUCHED[NTOUCHED] = i as u32;
                NTOUCHED += 1;
                RING[RINGPOS & 255] = a;
                RING[(RINGPOS + 1) & 255] = b;
                RINGPOS += 2;
            }
        }
    }

    macro_rules! compare {
        ($($plain:ident $konst:ident $t:ty,)*) => {$(
            #[no_mangle]
            extern "C" fn $plain(a: $t, b: $t) {
                cmp(std::mem::size_of::<$t>() as u64 | 0x100, u64::from(a), u64::from(b));
            }
            #[no_mangle]
            extern "C" fn $konst(a: $t, b: $t) {
                cmp((std::mem::size_of::<$t>() as u64) << 56 ^ u64::from(a), u64::from(a), u64::from(b));
            }
        )*};
    }
    compare! {
        __sanitizer_cov_trace_cmp1 __sanitizer_cov_trace_const_cmp1 u8,
        __sanitizer_cov_trace_cmp2 __sanitizer_cov_trace_const_cmp2 u16,
        __sanitizer_cov_trace_cmp4 __sanitizer_cov_trace_const_cmp4 u32,
        __sanitizer_cov_trace_cmp8 __sanitizer_cov_trace_const_cmp8 u64,
    }

    #[no_mangle]
    unsafe extern "C" fn __sanitizer_cov_trace_switch(v: u64, cases: *const u64) {
        let n = *cases;
        for i in 0..n.min(24) {
            let c = *cases.add(2 + i as usize);
            cmp(c ^ 0x51 << 48, c, v);
        }
    }
}

struct Seen {
    counters: Vec<u8>,
    cmps: Vec<u8>,
}

fn clear() {
    let (a, b) = (START.load(Ordering::Relaxed), STOP.load(Ordering::Relaxed));
    unsafe {
        std::ptr::write_bytes(a as *mut u8, 0, b - a);
        for k in 0..NTOUCHED {
            CMPS[TOUCHED[k] as usize] = 0;
        }
        NTOUCHED = 0;
    }
}

/// How many features of the last run were not seen before.
fn news(seen: &mut Seen) -> usize {
    let (a, b) = (START.load(Ordering::Relaxed), STOP.load(Ordering::Relaxed));
    let mut n = 0;
    let cs = unsafe { std::slice::from_raw_parts(a as *const u8, b - a) };
    for (i, &c) in cs.iter().enumerate() {
        if c != 0 {
            let bit = match c {
                1 => 1,
                2 => 2,
                3 => 4,
                4..=7 => 8,
                8..=15 => 16,
                16..=31 => 32,
                32..=127 => 64,
                _ => 128,
            };
            if seen.counters[i] & bit == 0 {
                seen.counters[i] |= bit;
                n += 2;
            }
        }
    }
    unsafe {
        for k in 0..NTOUCHED {
            let i = TOUCHED[k] as usize;
            if seen.cmps[i] == 0 {
                seen.cmps[i] = 1;
                n += 1;
            }
        }
    }
    n
}

const LONGEST: usize = 1 << 14;

fn mutate_text(s: &mut Src, t: &str, other: &str, fresh: &dyn Fn(&mut Src) -> Option<String>) -> String {
    let mut t = t.to_owned();
    for _ in 0..s.range(1, 4) {
        t = match s.below(12) {
            0 => {
                // a piece of the other text
                let o: Vec<char> = other.chars().collect();
                if o.is_empty() {
                    t
                } else {
                    let a = s.below(o.len());
                    let b = s.range(a, o.len().min(a + 40));
                    let piece: String = o[a..b].iter().collect();
                    insert(s, &t, &piece)
                }
            }
            1 => {
                let (a, b): (Vec<char>, Vec<char>) = (t.chars().collect(), other.chars().collect());
                let (i, j) = (s.range(0, a.len()), s.range(0, b.len()));
                a[..i].iter().chain(&b[j..]).collect()
            }
            2 => gen::stretch(s, &t, 9),
            3 => match fresh(s) {
                Some(f) if f.len() < 200 => insert(s, &t, &f),
                _ => t,
            },
            4 => {
                // an operand the library compared something with
                let v = unsafe { RING[s.below(256)] };
                match char::from_u32((v as u32).wrapping_add(s.below(3) as u32).wrapping_sub(1)) {
                    Some(c) => insert(s, &t, &c.to_string()),
                    None => t,
                }
            }
            5 => {
                let v = unsafe { RING[s.below(256)] };
                let n = v.wrapping_add(s.below(3) as u64).wrapping_sub(1);
                let c: Vec<char> = t.chars().collect();
                if n < 3000 && !c.is_empty() {
                    // bring a piece to that length
                    let i = s.below(c.len());
                    let mut o = c.clone();
                    for _ in 0..n {
                        o.insert(i, c[i]);
                    }
                    o.into_iter().collect()
                } else {
                    insert(s, &t, &n.to_string())
                }
            }
            _ => gen::mutate(s, &t),
        };
    }
    // short texts are quicker and usually enough
    let longest = if s.chance(1, 64) { LONGEST } else { 300 };
    if t.len() > longest {
        t.chars().take(longest / 4).collect()
    } else {
        t
    }
}

fn insert(s: &mut Src, t: &str, piece: &str) -> String {
    let mut c: Vec<char> = t.chars().collect();
    let i = s.range(0, c.len());
    c.splice(i..i, piece.chars());
    c.into_iter().collect()
}

fn mutate_tape(s: &mut Src, t: &[u64], other: &[u64]) -> Vec<u64> {
    let mut t = t.to_vec();
    for _ in 0..s.range(1, 5) {
        let n = t.len();
        match s.below(8) {
            0 | 1 if n > 0 => {
                let i = s.below(n);
                t[i] = s.u64();
            }
            2 if n > 0 => {
                let i = s.below(n);
                t[i] = t[i].wrapping_add(s.below(9) as u64).wrapping_sub(4);
            }
            3 if n > 0 => {
                let i = s.below(n);
                t[i] = s.below(64) as u64;
            }
            4 if n > 1 => {
                let i = s.below(n);
                let j = s.range(i, n.min(i + 20));
                t.drain(i..j);
            }
            5 if n > 1 && n < 4000 => {
                let i = s.below(n);
                let j = s.range(i, n.min(i + 40));
                let piece = t[i..j].to_vec();
                let k = s.range(0, t.len());
                t.splice(k..k, piece);
            }
            6 if !other.is_empty() => {
                let i = s.range(0, n);
                let j = s.below(other.len());
                t.truncate(i);
                t.extend_from_slice(&other[j..]);
            }
            _ => {
                for _ in 0..s.range(1, 16) {
                    let v = s.u64();
                    t.push(v);
                }
            }
        }
    }
    let longest = if s.chance(1, 32) { 6000 } else { 400 };
    t.truncate(longest);
    t
}

/// The case being run, where the parent process can read it after a crash:
/// kind (1 text, 2 tape), length, content.
struct Mirror(*mut u64);
pub const MIRROR_WORDS: usize = 1 << 15;

impl Mirror {
    fn put(&self, c: &Case) {
        if self.0.is_null() {
            return;
        }
        unsafe {
            match c {
                Case::Text(t) => {
                    let n = t.len().min((MIRROR_WORDS - 2) * 8);
                    *self.0 = 1;
                    *self.0.add(1) = n as u64;
                    std::ptr::copy_nonoverlapping(t.as_ptr(), self.0.add(2).cast(), n);
                }
                Case::Tape(t) => {
                    let n = t.len().min(MIRROR_WORDS - 2);
                    *self.0 = 2;
                    *self.0.add(1) = n as u64;
                    std::ptr::copy_nonoverlapping(t.as_ptr(), self.0.add(2), n);
                }
            }
        }
    }
}

/// One search per distinct check: its phases provide the seeds.
pub fn run(phases: &[Phase], o: &RunOpts, seconds: u64, mirror: *mut u64, skip: &[&str]) -> (Vec<PhaseStat>, Option<Violation>) {
    assert!(START.load(Ordering::Relaxed) != 0, "the library is not instrumented");
    let mirror = Mirror(mirror);
    let mut targets: Vec<(usize, Vec<usize>)> = Vec::new();
    for (i, p) in phases.iter().enumerate() {
        if skip.contains(&p.name.as_str()) {
            continue;
        }
        let same = |q: &Phase| match (&p.body, &q.body) {
            (Body::Text { check: a, .. }, Body::Text { check: b, .. }) => *a as usize == *b as usize,
            (Body::Tape { check: a }, Body::Tape { check: b }) => *a as usize == *b as usize,
            _ => false,
        };
        match targets.iter_mut().find(|t| same(&phases[t.0])) {
            Some(t) => t.1.push(i),
            None => targets.push((i, vec![i])),
        }
    }
    let mut stats = Vec::new();
    let share = Duration::from_secs(seconds) / targets.len().max(1) as u32;
    for (rep, members) in targets {
        let (st, v) = one(phases, rep, &members, o, share, &mirror);
        stats.push(st);
        if v.is_some() {
            return (stats, v);
        }
    }
    (stats, None)
}

fn one(phases: &[Phase], rep: usize, members: &[usize], o: &RunOpts, share: Duration, mirror: &Mirror) -> (PhaseStat, Option<Violation>) {
    let started = Instant::now();
    let ph = &phases[rep];
    let n = STOP.load(Ordering::Relaxed) - START.load(Ordering::Relaxed);
    let mut seen = Seen {
        counters: vec![0; n],
        cmps: vec![0; CMP],
    };
    let mut corpus: Vec<Case> = Vec::new();
    let mut st = PhaseStat {
        name: format!("guided:{}", ph.name),
        ..PhaseStat::default()
    };
    let mut distinct: HashSet<u64> = HashSet::new();
    let base = mix(o.shard ^ 0x6_1de);
    let fresh = |s: &mut Src| -> Option<String> {
        let m = &phases[members[s.below(members.len())]];
        match &m.body {
            Body::Text { gen, .. } => {
                let i = (u128::from(s.u64()) * u128::from(m.cases) >> 64) as u64;
                gen(i, s)
            }
            Body::Tape { .. } => None,
        }
    };
    let mut k = 0u64;
    while started.elapsed() < share {
        if k == 16 && started.elapsed() > Duration::from_millis(400) {
            // searching needs many cases
            break;
        }
        for _ in 0..16 {
            k += 1;
            let mut s = Src::fresh(case_seed(o.seed ^ base, &o.salt, &st.name, k));
            let seeding = corpus.len() < 8 || k < 400 || s.chance(1, 8);
            let choose = |s: &mut Src| {
                let n = corpus.len();
                if s.chance(1, 2) {
                    n - 1 - s.below(n.min(20))
                } else {
                    s.below(n)
                }
            };
            let case = match &ph.body {
                Body::Text { .. } => {
                    let t = if seeding {
                        fresh(&mut s)
                    } else {
                        let (a, b) = (choose(&mut s), choose(&mut s));
                        let (Case::Text(a), Case::Text(b)) = (&corpus[a], &corpus[b]) else { unreachable!() };
                        Some(mutate_text(&mut s, a, b, &fresh))
                    };
                    match t {
                        Some(t) if t.len() <= 2 * LONGEST => Case::Text(t),
                        _ => continue,
                    }
                }
                Body::Tape { .. } => {
                    if seeding {
                        let n = s.range(4, 400);
                        Case::Tape((0..n).map(|_| s.u64()).collect())
                    } else {
                        let (a, b) = (choose(&mut s), choose(&mut s));
                        let (Case::Tape(a), Case::Tape(b)) = (&corpus[a], &corpus[b]) else { unreachable!() };
                        Case::Tape(mutate_tape(&mut s, a, b))
                    }
                }
            };
            mirror.put(&case);
            if let Some(p) = o.slots {
                unsafe {
                    p.add(1).write_volatile(k);
                    p.write_volatile(rep as u64 + 1);
                }
            }
            let mut cx = Cx::new();
            cx.want_sample = st.samples.len() < 2;
            clear();
            let mut used = None;
            let r = match (&ph.body, &case) {
                (Body::Tape { check }, Case::Tape(t)) => {
                    let mut src = Src::replay(t.clone());
                    let r = match catch(|| {
                        (o.reset)();
                        check(&mut src, &mut cx)
                    }) {
                        Ok(r) => r,
                        Err(p) => Err(format!("unexpected panic: {p}")),
                    };
                    used = Some(src.used().to_vec());
                    r
                }
                _ => run_case(ph, &case, &mut cx, o.reset),
            };
            if let Some(p) = o.slots {
                unsafe { p.write_volatile(0) };
            }
            st.evaluations += 1;
            st.extra += cx.extra;
            for (l, v) in cx.labels {
                *st.labels.entry(l).or_insert(0) += v;
            }
            let case = match used {
                Some(u) => Case::Tape(u),
                None => case,
            };
            if cx.nontrivial {
                st.nontrivial += 1;
                let h = match &case {
                    Case::Text(t) => hash_bytes(t.as_bytes()),
                    Case::Tape(t) => t.iter().fold(0, |h, &v| mix(h ^ v)),
                };
                if distinct.len() < 3_000_000 {
                    distinct.insert(h);
                }
                if st.samples.len() < 2 {
                    st.samples.push(match (cx.sample, &case) {
                        (Some(s), _) => s.chars().take(300).collect(),
                        (None, Case::Text(t)) => t.chars().take(160).collect(),
                        (None, Case::Tape(t)) => format!("history of {} choices", t.len()),
                    });
                }
            }
            if let Err(msg) = r {
                let first = Violation {
                    phase: ph.name.clone(),
                    idx: k,
                    case: case.clone(),
                    msg,
                    rendered: None,
                };
                (o.found)(&first);
                let (case, msg) = shrink(ph, case, first.msg, o.reset);
                let mut cx = Cx::new();
                cx.want_sample = true;
                let _ = run_case(ph, &case, &mut cx, o.reset);
                let v = Violation {
                    phase: ph.name.clone(),
                    idx: k,
                    case,
                    msg,
                    rendered: cx.sample,
                };
                st.distinct = distinct.len() as u64;
                st.wall = started.elapsed().as_secs_f64();
                return (st, Some(v));
            }
            if news(&mut seen) > 0 && corpus.len() < 20_000 {
                corpus.push(case);
            }
        }
    }
    let reached = seen.counters.iter().filter(|&&c| c != 0).count() as u64;
    st.labels = BTreeMap::from_iter(st.labels);
    st.labels.insert("kept for reaching something new", corpus.len() as u64);
    st.labels.insert("places of the library reached", reached);
    st.labels.insert("places of the library", n as u64);
    st.distinct = distinct.len() as u64;
    st.wall = started.elapsed().as_secs_f64();
    (st, None)
}
