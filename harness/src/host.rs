//! Command interface of a worker process. The parent (check.py) starts
//! workers, watches them, and turns what they report into a verdict.
//!
//!   work PROP  tier= seed= threads= shard=i/n scale= out= slots= salt=
//!   one PROP   phase= idx=          run one generated case (crash triage)
//!   replay PROP phase= case=FILE    run one recorded case
//!   list PROP                       phases

use crate::engine::*;
use crate::props::{self, Env};
use std::collections::HashMap;
use std::fmt::Write as _;
use std::path::PathBuf;
use std::sync::OnceLock;

static OUT: OnceLock<PathBuf> = OnceLock::new();

fn violation_json(v: &Violation) -> String {
    format!(
        "{{\"phase\":{},\"idx\":{},\"msg\":{},\"rendered\":{},\"case\":{}}}",
        json_str(&v.phase),
        v.idx,
        json_str(&v.msg),
        v.rendered.as_deref().map_or("null".to_owned(), json_str),
        case_json(&v.case)
    )
}

fn found(v: &Violation) {
    if let Some(p) = OUT.get() {
        let _ = std::fs::write(p, format!("{{\"partial\":true,\"phases\":[],\"violation\":{}}}", violation_json(v)));
    }
}

pub fn map_shared(path: &str, words: usize) -> *mut u64 {
    use std::os::fd::AsRawFd;
    extern "C" {
        fn mmap(a: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    }
    let f = std::fs::OpenOptions::new().read(true).write(true).open(path).expect("slots file");
    f.set_len((words * 8) as u64).expect("slots size");
    let p = unsafe { mmap(std::ptr::null_mut(), words * 8, 3, 1, f.as_raw_fd(), 0) };
    assert!(p as isize != -1, "mmap");
    p.cast()
}

pub fn parse_case(text: &str) -> Option<Case> {
    let (kind, data) = text.split_once('\n')?;
    match kind {
        "text" => {
            let d = data.trim();
            let b: Option<Vec<u8>> = (0..d.len() / 2).map(|i| u8::from_str_radix(&d[2 * i..2 * i + 2], 16).ok()).collect();
            Some(Case::Text(String::from_utf8(b?).ok()?))
        }
        "tape" => Some(Case::Tape(data.split_whitespace().map_while(|x| x.parse().ok()).collect())),
        _ => None,
    }
}

/// Exit code: 0 held, 1 violated, 2 usage or internal error.
pub fn main(args: &[String]) -> i32 {
    install_hook();
    if args.len() < 2 {
        eprintln!("usage: vh work|one|replay|list PROP key=value...");
        return 2;
    }
    #[cfg(all(feature = "wrap", not(feature = "pm")))]
    if args[0] == "fresh" {
        return match props::pm::fresh(&args[1]) {
            Ok(()) => {
                println!("ok");
                0
            }
            Err(m) => {
                println!("{m}");
                1
            }
        };
    }
    let kv: HashMap<&str, &str> = args[2..].iter().filter_map(|a| a.split_once('=')).collect();
    let get = |k: &str, d: &str| kv.get(k).copied().unwrap_or(d).to_owned();
    let num = |k: &str, d: u64| kv.get(k).map_or(d, |v| v.parse().expect("number"));
    let env = Env {
        thorough: get("tier", "quick") == "thorough",
        scale: num("scale", 100),
    };
    let prop = args[1].as_str();
    let phases = props::phases(prop, env);
    let seed = num("seed", 1);
    let salt = get("salt", prop);
    let reset = props::common::reset;
    match args[0].as_str() {
        "list" => {
            for p in &phases {
                println!("{} {}", p.name, p.cases);
            }
            0
        }
        "work" => {
            let threads = num("threads", 8) as usize;
            let (shard, nshards) = match get("shard", "0/1").split_once('/') {
                Some((a, b)) => (a.parse().unwrap(), b.parse().unwrap()),
                None => (0, 1),
            };
            let slots = kv.get("slots").map(|p| map_shared(p, threads * 2));
            if let Some(o) = kv.get("out") {
                let _ = OUT.set(PathBuf::from(o));
            }
            let only = get("only", "");
            let o = RunOpts {
                seed,
                salt,
                threads,
                shard,
                nshards,
                slots,
                reset,
                stack: props::stack(prop),
                found,
            };
            let mut stats = Vec::new();
            let mut viol = None;
            if let Some(secs) = kv.get("guide") {
                let secs = secs.parse().expect("seconds");
                let mirror = kv.get("mirror").map_or(0, |f| map_shared(f, crate::guide::MIRROR_WORDS) as usize);
                let verbose = kv.contains_key("verbose");
                let skip = get("skip", "");
                let skip: Vec<&str> = skip.split(',').collect();
                // on a stack of the same size as elsewhere
                let o = Guided(&o, &phases);
                let (s, v) = std::thread::scope(|sc| {
                    let run = move || {
                        let o = o;
                        crate::guide::run(o.1, o.0, secs, mirror as *mut u64, &skip)
                    };
                    std::thread::Builder::new().stack_size(props::stack(prop)).spawn_scoped(sc, run).unwrap().join().expect("guided search")
                });
                for st in s {
                    if verbose {
                        eprintln!("{:<22} {:>9} cases {:>9} distinct non-trivial {:>7.2} s {:?}", st.name, st.evaluations, st.distinct, st.wall, st.labels);
                    }
                    stats.push(stat_json(&st));
                }
                viol = v;
            }
            for (i, ph) in phases.iter().enumerate() {
                if !only.is_empty() && ph.name != only || kv.contains_key("guide") {
                    continue;
                }
                let (st, v) = run_phase(ph, i, &o);
                stats.push(stat_json(&st));
                if kv.contains_key("verbose") {
                    eprintln!(
                        "{:<22} {:>9} cases {:>9} distinct non-trivial {:>7.2} s {:?}",
                        st.name, st.evaluations, st.distinct, st.wall, st.labels
                    );
                }
                if v.is_some() {
                    viol = v;
                    break;
                }
            }
            let mut out = String::from("{\"partial\":false,\"phases\":[");
            out.push_str(&stats.join(",\n"));
            let _ = write!(out, "],\n\"violation\":{}}}", viol.as_ref().map_or("null".to_owned(), violation_json));
            match OUT.get() {
                Some(p) => std::fs::write(p, out).expect("report"),
                None => {
                    if let Some(v) = &viol {
                        println!("{}\n{}", v.msg, violation_json(v));
                    }
                }
            }
            i32::from(viol.is_some())
        }
        "one" => {
            let k: usize = num("phase", 0) as usize;
            let idx = num("idx", 0);
            let ph = &phases[k];
            println!("phase-name {}", ph.name);
            let cs = case_seed(seed, &salt, &ph.name, idx);
            let mut src = Src::fresh(cs);
            let stack = props::stack(prop);
            let r = match &ph.body {
                Body::Text { gen, .. } => {
                    let Some(s) = gen(idx, &mut src) else {
                        println!("no such case");
                        return 0;
                    };
                    if let Some(f) = kv.get("dump") {
                        let hex: String = s.bytes().map(|b| format!("{b:02x}")).collect();
                        std::fs::write(f, format!("text\n{hex}\n")).expect("dump");
                    }
                    on_stack(stack, move || run_case(&phases[k], &Case::Text(s), &mut Cx::new(), reset))
                }
                Body::Tape { check } => {
                    if let Some(f) = kv.get("mirror") {
                        const CAP: usize = 1 << 16;
                        src.mirror(map_shared(f, CAP), CAP);
                    }
                    let check = *check;
                    let src = SendSrc(src);
                    on_stack(stack, move || {
                        let mut src = src;
                        let s = &mut src;
                        match catch(|| {
                            reset();
                            check(&mut s.0, &mut Cx::new())
                        }) {
                            Ok(r) => r,
                            Err(p) => Err(format!("unexpected panic: {p}")),
                        }
                    })
                }
            };
            report(r)
        }
        "replay" => {
            let name = get("phase", "");
            let Some(ph) = phases.iter().find(|p| p.name == name).cloned() else {
                eprintln!("no phase {name:?}");
                return 2;
            };
            let text = std::fs::read_to_string(get("case", "")).expect("case file");
            let Some(case) = parse_case(&text) else {
                eprintln!("unreadable case");
                return 2;
            };
            let r = on_stack(props::stack(prop), move || {
                let mut cx = Cx::new();
                cx.want_sample = true;
                let r = run_case(&ph, &case, &mut cx, reset);
                if let Some(s) = cx.sample {
                    println!("case: {s}");
                }
                r
            });
            report(r)
        }
        other => {
            eprintln!("unknown command {other}");
            2
        }
    }
}

struct Guided<'a>(&'a RunOpts, &'a [Phase]);
unsafe impl Send for Guided<'_> {}

struct SendSrc(Src);
unsafe impl Send for SendSrc {}

fn on_stack(stack: usize, f: impl FnOnce() -> R + Send) -> R {
    if cfg!(any(feature = "pm", feature = "bare")) {
        return f();
    }
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(stack)
            .spawn_scoped(s, f)
            .unwrap()
            .join()
            .unwrap_or_else(|_| Err("worker thread panicked".to_owned()))
    })
}

fn report(r: R) -> i32 {
    match r {
        Ok(()) => {
            println!("held");
            0
        }
        Err(m) => {
            println!("VIOLATED: {m}");
            1
        }
    }
}
