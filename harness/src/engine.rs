//! Generic property-based testing engine: choice tapes, phases, parallel
//! runner, shrinking, reports. Knows nothing about proc-macro2.

use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::hash::{BuildHasherDefault, Hasher};
use std::panic::{self, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};

pub type R = Result<(), String>;

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($arg:tt)*) => {
        if !$cond {
            return Err(format!($($arg)*));
        }
    };
}

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64 ^ b.len() as u64;
    let mut it = b.chunks_exact(8);
    for c in &mut it {
        h = (h ^ u64::from_le_bytes(c.try_into().unwrap())).wrapping_mul(0x9fb21c651e98df25);
        h ^= h >> 29;
    }
    for &x in it.remainder() {
        h = (h ^ u64::from(x)).wrapping_mul(0x100000001b3);
    }
    mix(h)
}

pub struct Rng {
    s: u64,
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng { s: mix(seed) }
    }
    pub fn next(&mut self) -> u64 {
        self.s = self.s.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.s;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        ((u128::from(self.next()) * u128::from(n)) >> 64) as u64
    }
}

/// Source of choices. Every choice is recorded, so that a failing case can be
/// replayed and shrunk as one sequence of numbers; 0 is always the simplest.
pub struct Src {
    rng: Option<Rng>,
    pub tape: Vec<u64>,
    pos: usize,
    mirror: Option<*mut u64>,
    mirror_cap: usize,
}

impl Src {
    pub fn fresh(seed: u64) -> Self {
        Src {
            rng: Some(Rng::new(seed)),
            tape: Vec::new(),
            pos: 0,
            mirror: None,
            mirror_cap: 0,
        }
    }
    pub fn replay(tape: Vec<u64>) -> Self {
        Src {
            rng: None,
            tape,
            pos: 0,
            mirror: None,
            mirror_cap: 0,
        }
    }
    pub fn used(&self) -> &[u64] {
        &self.tape[..self.pos.min(self.tape.len())]
    }
    /// Also write every choice to shared memory (survives a crash).
    pub fn mirror(&mut self, p: *mut u64, cap: usize) {
        self.mirror = Some(p);
        self.mirror_cap = cap;
    }
    fn raw(&mut self, n: u64) -> u64 {
        let v = match &mut self.rng {
            Some(r) => {
                let v = if n == 0 { r.next() } else { r.below(n) };
                self.tape.push(v);
                v
            }
            None => {
                let v = self.tape.get(self.pos).copied().unwrap_or(0);
                if n == 0 {
                    v
                } else {
                    v % n
                }
            }
        };
        if let Some(p) = self.mirror {
            if self.pos + 1 < self.mirror_cap {
                unsafe {
                    *p.add(1 + self.pos) = v;
                    *p = self.pos as u64 + 1;
                }
            }
        }
        self.pos += 1;
        v
    }
    pub fn u64(&mut self) -> u64 {
        self.raw(0)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        self.raw(n as u64) as usize
    }
    /// inclusive
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    /// true with probability num/den; false is simplest
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        let v = self.below(den);
        v >= den - num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
    /// small numbers likelier; 0..=max
    pub fn skewed(&mut self, max: usize) -> usize {
        let m = match self.below(4) {
            0 => 2,
            1 => 5,
            2 => 12,
            _ => max,
        };
        self.below(m.min(max) + 1)
    }
}

pub struct Cx {
    pub nontrivial: bool,
    pub want_sample: bool,
    pub sample: Option<String>,
    pub labels: BTreeMap<&'static str, u64>,
    /// extra sub-cases checked within this case
    pub extra: u64,
    pub key: Option<u64>,
}

impl Cx {
    pub fn new() -> Self {
        Cx {
            nontrivial: false,
            want_sample: false,
            sample: None,
            labels: BTreeMap::new(),
            extra: 0,
            key: None,
        }
    }
    pub fn label(&mut self, l: &'static str) {
        *self.labels.entry(l).or_insert(0) += 1;
    }
}

pub type TextGen = Arc<dyn Fn(u64, &mut Src) -> Option<String> + Send + Sync>;
pub type TextCheck = fn(&str, &mut Cx) -> R;
pub type TapeCheck = fn(&mut Src, &mut Cx) -> R;

#[derive(Clone)]
pub enum Body {
    Text { gen: TextGen, check: TextCheck },
    Tape { check: TapeCheck },
}

#[derive(Clone)]
pub struct Phase {
    pub name: String,
    pub cases: u64,
    /// the phase enumerates its space completely (cases distinct by construction)
    pub exhaustive: bool,
    pub body: Body,
}

pub fn text(name: &str, cases: u64, gen: impl Fn(&mut Src) -> String + Send + Sync + 'static, check: TextCheck) -> Phase {
    Phase {
        name: name.to_owned(),
        cases,
        exhaustive: false,
        body: Body::Text {
            gen: Arc::new(move |_, s| Some(gen(s))),
            check,
        },
    }
}

pub fn indexed(name: &str, cases: u64, gen: impl Fn(u64) -> Option<String> + Send + Sync + 'static, check: TextCheck) -> Phase {
    Phase {
        name: name.to_owned(),
        cases,
        exhaustive: true,
        body: Body::Text {
            gen: Arc::new(move |i, _| gen(i)),
            check,
        },
    }
}

pub fn tape(name: &str, cases: u64, check: TapeCheck) -> Phase {
    Phase {
        name: name.to_owned(),
        cases,
        exhaustive: false,
        body: Body::Tape { check },
    }
}

// ---------------------------------------------------------------- panics

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_hook() {
    panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            (*s).to_owned()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_owned()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| {
            if let Ok(mut p) = p.try_borrow_mut() {
                *p = format!("{msg} at {loc}");
            }
        });
    }));
}

pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}

/// Runs `f`; `Err(message)` if it panicked.
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    panic::catch_unwind(AssertUnwindSafe(f)).map_err(|_| last_panic())
}

// ---------------------------------------------------------------- running

pub struct CaseRef {
    pub phase: usize,
    pub idx: u64,
}

#[derive(Clone, Debug)]
pub enum Case {
    Text(String),
    Tape(Vec<u64>),
}

pub fn case_seed(seed: u64, salt: &str, phase: &str, idx: u64) -> u64 {
    let mut h = mix(seed ^ 0x5eed);
    h = mix(h ^ hash_bytes(salt.as_bytes()));
    h = mix(h ^ hash_bytes(phase.as_bytes()));
    mix(h ^ idx)
}

/// Hook called before each case (resets global state of the code under test).
pub type Reset = fn();

fn run_text(check: TextCheck, s: &str, cx: &mut Cx, reset: Reset) -> R {
    match catch(|| {
        reset();
        check(s, cx)
    }) {
        Ok(r) => r,
        Err(p) => Err(format!("unexpected panic: {p}")),
    }
}

fn run_tape(check: TapeCheck, src: &mut Src, cx: &mut Cx, reset: Reset) -> R {
    match catch(|| {
        reset();
        check(src, cx)
    }) {
        Ok(r) => r,
        Err(p) => Err(format!("unexpected panic: {p}")),
    }
}

pub fn run_case(ph: &Phase, case: &Case, cx: &mut Cx, reset: Reset) -> R {
    match (&ph.body, case) {
        (Body::Text { check, .. }, Case::Text(s)) => run_text(*check, s, cx, reset),
        (Body::Tape { check }, Case::Tape(t)) => {
            let mut src = Src::replay(t.clone());
            run_tape(*check, &mut src, cx, reset)
        }
        _ => Err("replay kind mismatch".to_owned()),
    }
}

pub fn shrink(ph: &Phase, case: Case, msg: String, reset: Reset) -> (Case, String) {
    let budget = std::time::Instant::now();
    let over = move || budget.elapsed().as_secs() > 20;
    match case {
        Case::Text(s) => {
            let mut best: Vec<char> = s.chars().collect();
            let mut bmsg = msg;
            let try_ = |c: &[char]| -> Option<String> {
                let s: String = c.iter().collect();
                run_case(ph, &Case::Text(s), &mut Cx::new(), reset).err()
            };
            let mut progress = true;
            while progress && !over() {
                progress = false;
                let mut size = (best.len() / 2).max(1);
                loop {
                    let mut i = 0;
                    while i < best.len() && !over() {
                        let end = (i + size).min(best.len());
                        let mut c = best.clone();
                        c.drain(i..end);
                        if let Some(m) = try_(&c) {
                            best = c;
                            bmsg = m;
                            progress = true;
                        } else {
                            i = end;
                        }
                    }
                    if size == 1 {
                        break;
                    }
                    size /= 2;
                }
                if best.len() < 400 {
                    for i in 0..best.len() {
                        for r in ['a', '0', ' '] {
                            if best[i] == r {
                                break;
                            }
                            let mut c = best.clone();
                            c[i] = r;
                            if let Some(m) = try_(&c) {
                                best = c;
                                bmsg = m;
                                progress = true;
                                break;
                            }
                            if over() {
                                break;
                            }
                        }
                    }
                }
            }
            (Case::Text(best.into_iter().collect()), bmsg)
        }
        Case::Tape(t) => {
            let mut best = t;
            let mut bmsg = msg;
            let try_ = |c: &[u64]| -> Option<(Vec<u64>, String)> {
                let Body::Tape { check } = &ph.body else {
                    return None;
                };
                let mut src = Src::replay(c.to_vec());
                let r = run_tape(*check, &mut src, &mut Cx::new(), reset);
                r.err().map(|m| (src.used().to_vec(), m))
            };
            let mut progress = true;
            while progress && !over() {
                progress = false;
                let mut size = (best.len() / 2).max(1);
                loop {
                    let mut i = 0;
                    while i < best.len() && !over() {
                        let end = (i + size).min(best.len());
                        let mut c = best.clone();
                        c.drain(i..end);
                        if let Some((u, m)) = try_(&c) {
                            if u.len() < best.len() || (u.len() == best.len() && u < best) {
                                best = u;
                                bmsg = m;
                                progress = true;
                                continue;
                            }
                        }
                        i = end;
                    }
                    if size == 1 {
                        break;
                    }
                    size /= 2;
                }
                for i in 0..best.len() {
                    if over() || i >= best.len() {
                        break;
                    }
                    let v = best[i];
                    for cand in [0, 1, v / 2, v.wrapping_sub(1)] {
                        if cand >= v {
                            continue;
                        }
                        let mut c = best.clone();
                        c[i] = cand;
                        if let Some((u, m)) = try_(&c) {
                            if u.len() < best.len() || (u.len() == best.len() && u < best) {
                                best = u;
                                bmsg = m;
                                progress = true;
                                break;
                            }
                        }
                    }
                }
            }
            (Case::Tape(best), bmsg)
        }
    }
}

#[derive(Default)]
struct IdHash(u64);
impl Hasher for IdHash {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, _: &[u8]) {}
    fn write_u64(&mut self, v: u64) {
        self.0 = v;
    }
}
type Set = HashSet<u64, BuildHasherDefault<IdHash>>;

#[derive(Default)]
pub struct PhaseStat {
    pub name: String,
    pub evaluations: u64,
    pub extra: u64,
    pub nontrivial: u64,
    pub distinct: u64,
    pub exhaustive: bool,
    pub labels: BTreeMap<&'static str, u64>,
    pub samples: Vec<String>,
    pub wall: f64,
}

pub struct Violation {
    pub phase: String,
    pub idx: u64,
    pub case: Case,
    pub msg: String,
    /// how the case prints itself
    pub rendered: Option<String>,
}

pub struct RunOpts {
    pub seed: u64,
    pub salt: String,
    pub threads: usize,
    pub shard: u64,
    pub nshards: u64,
    /// shared memory: 2 words per thread (phase+1, idx), so that the parent
    /// process knows which case was running when this one died or hung
    pub slots: Option<*mut u64>,
    pub reset: Reset,
    pub stack: usize,
    /// called with a violation before it is shrunk
    pub found: fn(&Violation),
}

struct Local {
    evals: u64,
    extra: u64,
    nontrivial: u64,
    set: Set,
    labels: BTreeMap<&'static str, u64>,
    samples: Vec<(u64, String)>,
}

fn worker(
    ph: &Phase,
    phase_no: usize,
    o: &RunOpts,
    t: usize,
    next: &AtomicU64,
    stop: &AtomicBool,
    fail: &Mutex<Option<(u64, Case, String)>>,
    slots: usize,
) -> Local {
    let mut l = Local {
        evals: 0,
        extra: 0,
        nontrivial: 0,
        set: Set::default(),
        labels: BTreeMap::new(),
        samples: Vec::new(),
    };
    let mut cx = Cx::new();
    let chunk: u64 = (ph.cases / (o.threads as u64 * 32)).clamp(1, 512);
    loop {
        let base = next.fetch_add(chunk, Ordering::Relaxed);
        if base >= ph.cases || stop.load(Ordering::Relaxed) {
            break;
        }
        for idx in base..(base + chunk).min(ph.cases) {
            if idx % o.nshards != o.shard {
                continue;
            }
            if slots != 0 {
                let p = slots as *mut u64;
                unsafe {
                    p.add(t * 2 + 1).write_volatile(idx);
                    p.add(t * 2).write_volatile(phase_no as u64 + 1);
                }
            }
            let seed = case_seed(o.seed, &o.salt, &ph.name, idx);
            cx.nontrivial = false;
            cx.sample = None;
            cx.key = None;
            cx.extra = 0;
            cx.want_sample = l.samples.len() < 2 || (mix(idx) % 4096 == 0 && l.samples.len() < 6);
            let mut src = Src::fresh(seed);
            let (r, key);
            let mut case = None;
            match &ph.body {
                Body::Text { gen, check } => {
                    let Some(s) = gen(idx, &mut src) else {
                        continue;
                    };
                    r = run_text(*check, &s, &mut cx, o.reset);
                    key = if cx.nontrivial && !ph.exhaustive { hash_bytes(s.as_bytes()) } else { 0 };
                    if cx.nontrivial && cx.want_sample && cx.sample.is_none() {
                        let mut e: String = s.chars().take(160).collect();
                        if e.len() < s.len() {
                            let _ = write!(e, "... ({} bytes)", s.len());
                        }
                        cx.sample = Some(e);
                    }
                    if r.is_err() {
                        case = Some(Case::Text(s));
                    }
                }
                Body::Tape { check } => {
                    r = run_tape(*check, &mut src, &mut cx, o.reset);
                    key = match cx.key {
                        Some(k) => k,
                        None => {
                            let mut h = 0;
                            if cx.nontrivial {
                                for &v in src.used() {
                                    h = mix(h ^ v);
                                }
                            }
                            h
                        }
                    };
                    if r.is_err() {
                        case = Some(Case::Tape(src.used().to_vec()));
                    }
                }
            }
            l.evals += 1;
            l.extra += cx.extra;
            if cx.nontrivial {
                l.nontrivial += 1;
                if !ph.exhaustive && l.set.len() < 3_000_000 {
                    l.set.insert(key);
                }
                if cx.want_sample {
                    if let Some(s) = cx.sample.take() {
                        l.samples.push((mix(idx ^ 77), s));
                    }
                }
            }
            if let Err(m) = r {
                let mut f = fail.lock().unwrap();
                let better = match &*f {
                    None => true,
                    Some((i, _, _)) => idx < *i,
                };
                if better {
                    *f = Some((idx, case.unwrap(), m));
                }
                stop.store(true, Ordering::Relaxed);
                break;
            }
        }
        if slots != 0 {
            unsafe { (slots as *mut u64).add(t * 2).write_volatile(0) };
        }
    }
    l.labels = cx.labels;
    l
}

pub fn run_phase(ph: &Phase, phase_no: usize, o: &RunOpts) -> (PhaseStat, Option<Violation>) {
    let started = std::time::Instant::now();
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let fail = Mutex::new(None);
    let slots = o.slots.map_or(0, |p| p as usize);
    let mut locals = Vec::new();
    if o.threads == 1 {
        locals.push(worker(ph, phase_no, o, 0, &next, &stop, &fail, slots));
    } else {
        let o2 = SendPtr(o);
        std::thread::scope(|s| {
            let mut hs = Vec::new();
            for t in 0..o.threads {
                let (next, stop, fail) = (&next, &stop, &fail);
                let o2 = &o2;
                hs.push(
                    std::thread::Builder::new()
                        .stack_size(o.stack)
                        .spawn_scoped(s, move || worker(ph, phase_no, o2.0, t, next, stop, fail, slots))
                        .unwrap(),
                );
            }
            for h in hs {
                locals.push(h.join().expect("worker"));
            }
        });
    }
    let mut st = PhaseStat {
        name: ph.name.clone(),
        exhaustive: ph.exhaustive,
        ..PhaseStat::default()
    };
    let mut set = Set::default();
    let mut samples = Vec::new();
    for l in locals {
        st.evaluations += l.evals;
        st.extra += l.extra;
        st.nontrivial += l.nontrivial;
        if set.is_empty() {
            set = l.set;
        } else {
            set.extend(l.set);
        }
        for (k, v) in l.labels {
            *st.labels.entry(k).or_insert(0) += v;
        }
        samples.extend(l.samples);
    }
    samples.sort();
    st.samples = samples.into_iter().take(3).map(|x| x.1).collect();
    st.distinct = if ph.exhaustive { st.nontrivial } else { set.len() as u64 };
    let v = fail.into_inner().unwrap().map(|(idx, case, msg)| {
        let mut first = Violation {
            phase: ph.name.clone(),
            idx,
            case,
            msg,
            rendered: None,
        };
        (o.found)(&first);
        let case = std::mem::replace(&mut first.case, Case::Tape(Vec::new()));
        let (case, msg) = shrink(ph, case, first.msg, o.reset);
        let mut cx = Cx::new();
        cx.want_sample = true;
        let _ = run_case(ph, &case, &mut cx, o.reset);
        Violation {
            phase: ph.name.clone(),
            idx,
            case,
            msg,
            rendered: cx.sample,
        }
    });
    st.wall = started.elapsed().as_secs_f64();
    (st, v)
}

struct SendPtr<'a>(&'a RunOpts);
unsafe impl Sync for SendPtr<'_> {}
unsafe impl Send for SendPtr<'_> {}

// ---------------------------------------------------------------- json

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || c == '\u{7f}' => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn stat_json(s: &PhaseStat) -> String {
    let labels: Vec<String> = s.labels.iter().map(|(k, v)| format!("{}:{}", json_str(k), v)).collect();
    let samples: Vec<String> = s.samples.iter().map(|x| json_str(x)).collect();
    format!(
        "{{\"phase\":{},\"evaluations\":{},\"sub_checks\":{},\"nontrivial\":{},\"distinct\":{},\"exhaustive\":{},\"wall\":{:.3},\"labels\":{{{}}},\"samples\":[{}]}}",
        json_str(&s.name),
        s.evaluations,
        s.extra,
        s.nontrivial,
        s.distinct,
        s.exhaustive,
        s.wall,
        labels.join(","),
        samples.join(",")
    )
}

pub fn case_json(c: &Case) -> String {
    match c {
        Case::Text(s) => format!("{{\"kind\":\"text\",\"text\":{}}}", json_str(s)),
        Case::Tape(t) => {
            let v: Vec<String> = t.iter().map(|x| format!("\"{x}\"")).collect();
            format!("{{\"kind\":\"tape\",\"tape\":[{}]}}", v.join(","))
        }
    }
}
