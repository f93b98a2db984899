//! Runner of the runtime monitors: generates workloads, drives the real code
//! of /repo, lets the oracles judge every observed result, writes evidence.
mod aim;
mod bigref;
mod consts;
mod fields;
mod gen;
mod global;
mod pc;
mod pf;
mod stats;
#[cfg(target_arch = "wasm32")]
mod wasm;

use bigref::*;
use fields::*;
use gen::*;
use pc::*;
use pf::Res;
use safecurves_rust::curve::curve1174::Curve1174;
use safecurves_rust::curve::curve41417::Curve41417;
use safecurves_rust::curve::e_222::E222;
use safecurves_rust::curve::e_382::E382;
use safecurves_rust::curve::e_521::E521;
use stats::*;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// The reference data of one field, built on first use.
pub fn fp(name: &str) -> &'static Fp {
    static C: [std::sync::OnceLock<Fp>; 9] = [const { std::sync::OnceLock::new() }; 9];
    C[fidx(name)].get_or_init(|| with_field!(name, F, Fp::new(F::NAME, F::N, F::C)))
}

pub fn nonres(name: &str) -> &'static W {
    static C: [std::sync::OnceLock<W>; 9] = [const { std::sync::OnceLock::new() }; 9];
    C[fidx(name)].get_or_init(|| pf::nonresidue(fp(name)))
}

pub fn curve_configs() -> Vec<String> {
    let mut v: Vec<String> = NAMED.iter().map(|c| c.name.to_string()).collect();
    for f in FIELDS { for s in 0..4 { v.push(format!("user/{}/{}", f, s)); } }
    v
}

pub fn env_for(cfg: &str) -> Env<'static> {
    if let Some(i) = NAMED.iter().find(|i| i.name == cfg) {
        let f = fp(i.field);
        return env(f, cfg, f.small(i.d), Some(i), 77);
    }
    let parts: Vec<&str> = cfg.split('/').collect();
    let f = fp(parts[1]);
    let d = user_d(f, parts[2].parse().unwrap());
    env(f, cfg, d, None, 78)
}

#[macro_export]
macro_rules! with_curve {
    ($cfg:expr, $C:ident, $body:expr) => {{
        let parts: Vec<&str> = $cfg.split('/').collect();
        match parts[0] {
            "E-222" => { type $C = E222; $body }
            "Curve1174" => { type $C = Curve1174; $body }
            "E-382" => { type $C = E382; $body }
            "Curve41417" => { type $C = Curve41417; $body }
            "E-521" => { type $C = E521; $body }
            "user" => with_field!(parts[1], F, match parts[2] {
                "0" => { type $C = User<F, 0>; $body }
                "1" => { type $C = User<F, 1>; $body }
                "2" => { type $C = User<F, 2>; $body }
                _ => { type $C = User<F, 3>; $body }
            }),
            other => panic!("unknown curve {}", other),
        }
    }};
}

pub fn field_case(prop: &str, cfg: &str, r: &mut Rng, st: &mut Stats) -> Res {
    let f = fp(cfg);
    with_field!(cfg, F, match prop {
        "F01" => pf::f01::<F>(r, f, st),
        "F02" => pf::f02::<F>(r, f, st),
        "F03" => pf::f03::<F>(r, f, st),
        "F04" => pf::f04::<F>(r, f, st),
        "F05" => pf::f05::<F>(r, f, st),
        "F06" => pf::f06::<F>(r, f, st),
        "F07" => pf::f07::<F>(r, f, st, nonres(cfg)),
        "F08" => pf::f08::<F>(r, f, st),
        "F09" => pf::f09::<F>(r, f, st),
        "F10" => pf::f10::<F>(r, f, st),
        "F11" => pf::f11::<F>(r, f, st),
        "F12" => pf::f12::<F>(r, f, st),
        "F13" => { let l = r.one_in(12); pf::f13::<F>(r, f, st, l) }
        "F14" => { let d = r.one_in(30); pf::f14::<F>(r, f, st, d) }
        other => panic!("unknown property {}", other),
    })
}

pub fn curve_case(prop: &str, cfg: &str, e: &Env, r: &mut Rng, st: &mut Stats) -> Res {
    with_curve!(cfg, C, match prop {
        "C01" => pc::c01::<C>(r, e, st),
        "C02" => pc::c02::<C>(r, e, st),
        "C03" => pc::c03::<C>(r, e, st),
        "C04" => pc::c04::<C>(r, e, st),
        "C05" => pc::c05::<C>(r, e, st),
        "C07" => pc::c07::<C>(r, e, st),
        "S01" => pc::s01::<C>(r, e, st),
        other => panic!("unknown property {}", other),
    })
}

pub fn configs(prop: &str) -> Vec<String> {
    if prop.starts_with('F') { FIELDS.iter().map(|s| s.to_string()).collect() } else { curve_configs() }
}

/// One case, any panic of the code under test turned into an observation.
pub fn one(prop: &str, cfg: &str, e: Option<&Env>, seed: u64, idx: u64, st: &mut Stats) -> Res {
    let mut r = Rng::new(hash_words(&[seed, hash_str(prop), hash_str(cfg), idx]));
    let out = catch_unwind(AssertUnwindSafe(|| match e {
        None => field_case(prop, cfg, &mut r, st),
        Some(e) => curve_case(prop, cfg, e, &mut r, st),
    }));
    match out {
        Ok(x) => x,
        Err(p) => {
            let m = p.downcast_ref::<String>().cloned()
                .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            let at = LAST_PANIC.with(|l| l.borrow().clone());
            if at.starts_with("src/") || at.contains("/harness/") {
                // our own code gave up: never a verdict
                eprintln!("MONITOR-ERROR {} {} case {}: {} at {}", prop, cfg, idx, m, at);
                std::process::exit(2);
            }
            Err(format!("the code under test panicked: {} at {}", m, at))
        }
    }
}

thread_local! { static LAST_PANIC: std::cell::RefCell<String> = std::cell::RefCell::new(String::new()); }

pub struct Violation { pub cfg: String, pub idx: u64, pub msg: String }

/// Cases per configuration in the quick tier (about 20 s on eight cores).
fn quick_cases(prop: &str) -> u64 {
    match prop {
        "F01" => 1_200_000, "F02" => 700_000, "F03" => 24_000, "F04" => 1_200_000, "F05" => 320_000,
        "F06" => 1_000_000, "F07" => 56_000, "F08" => 28_000, "F09" => 320_000, "F10" => 1_000_000,
        "F11" => 9_600, "F12" => 1_000_000, "F13" => 90_000, "F14" => 45_000,
        "C01" => 40_000, "C02" => 50_000, "C03" => 40_000, "C04" => 700, "C05" => 2_500, "C07" => 50_000,
        "S01" => 1_500,
        _ => 100,
    }
}

pub fn run(prop: &str, seed: u64, cases: u64, cap: Duration, threads: usize) -> (Stats, Vec<Violation>, bool, Vec<(String, u64)>) {
    let cfgs = configs(prop);
    let field = prop.starts_with('F');
    // expensive first so that the tail stays short
    let chunk = (cases / 16).max(1);
    let mut jobs: Vec<(usize, u64, u64)> = Vec::new();
    for start in (0..cases).step_by(chunk as usize) {
        for c in (0..cfgs.len()).rev() { jobs.push((c, start, (start + chunk).min(cases))); }
    }
    let envs: Vec<std::sync::OnceLock<Env<'static>>> = (0..cfgs.len()).map(|_| std::sync::OnceLock::new()).collect();
    let next = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let capped = AtomicBool::new(false);
    let viol = Mutex::new(Vec::new());
    let total = Mutex::new(Stats::default());
    let per = Mutex::new(vec![0u64; cfgs.len()]);
    let t0 = Instant::now();
    std::thread::scope(|s| {
        for _ in 0..threads {
            s.spawn(|| {
                let mut st = Stats::default();
                let mut mine = vec![0u64; cfgs.len()];
                loop {
                    let j = next.fetch_add(1, Ordering::Relaxed);
                    if j >= jobs.len() || stop.load(Ordering::Relaxed) { break; }
                    let (c, lo, hi) = jobs[j];
                    let e = if field { None } else { Some(envs[c].get_or_init(|| env_for(&cfgs[c]))) };
                    for idx in lo..hi {
                        if t0.elapsed() > cap { capped.store(true, Ordering::Relaxed); break; }
                        if let Err(msg) = one(prop, &cfgs[c], e, seed, idx, &mut st) {
                            let mut v = viol.lock().unwrap();
                            v.push(Violation { cfg: cfgs[c].clone(), idx, msg });
                            if v.len() >= 8 { stop.store(true, Ordering::Relaxed); }
                            break;
                        }
                        mine[c] += 1;
                    }
                }
                total.lock().unwrap().merge(st);
                let mut p = per.lock().unwrap();
                for i in 0..mine.len() { p[i] += mine[i]; }
            });
        }
    });
    let mut v = viol.into_inner().unwrap();
    v.sort_by(|a, b| (a.idx, &a.cfg).cmp(&(b.idx, &b.cfg)));
    let per = per.into_inner().unwrap();
    (total.into_inner().unwrap(), v, capped.load(Ordering::Relaxed), cfgs.into_iter().zip(per).collect())
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn arg(args: &[String], name: &str) -> Option<String> {
    args.iter().position(|a| a == name).and_then(|i| args.get(i + 1).cloned())
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|i| {
        let at = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if std::env::var("VP_DEBUG").is_ok() { eprintln!("panic at {}: {}", at, i); }
        LAST_PANIC.with(|l| *l.borrow_mut() = at);
    }));
    let cmd = args.get(1).map(|s| s.as_str()).unwrap_or("");
    match cmd {
        "run" => run_cmd(&args),
        "case" => {
            // case PROP CFG SEED IDX
            let (prop, cfg) = (&args[2], &args[3]);
            let (seed, idx): (u64, u64) = (args[4].parse().unwrap(), args[5].parse().unwrap());
            let mut st = Stats::default();
            let e = if prop.starts_with('F') { None } else { Some(env_for(cfg)) };
            match one(prop, cfg, e.as_ref(), seed, idx, &mut st) {
                Ok(()) => println!("case holds ({} checks)", st.checks),
                Err(m) => { println!("VIOLATED {}", m); std::process::exit(1) }
            }
        }
        "consts" => consts::dump(),
        "oracle" => global::oracle_dump(args[2].parse().unwrap()),
        "transcript" => global::transcript_cmd(args[2].parse().unwrap(), args[3].parse().unwrap()),
        "fresh" => global::fresh_cmd(args[2].parse().unwrap(), args[3].parse().unwrap(), &args[4], args[5].parse().unwrap()),
        "configs" => { for c in FIELDS.iter().map(|f| f.to_string()).chain(curve_configs()) { println!("{}", c); } }
        "sweep" => global::sweep_cmd(args[2].parse().unwrap(), args[3].parse().unwrap(),
            args.get(4).map_or(u64::MAX, |s| s.parse().unwrap()), args.get(5).map(|s| s.as_str()).unwrap_or("")),
        "sweepcases" => global::sweep_cases(&args[2], &args[3], args[4].parse().unwrap(), args[5].parse().unwrap(), args[6].parse().unwrap()),
        "kin" => global::kin_cmd(args[2].parse().unwrap(), args[3].parse().unwrap(), args[4].parse().unwrap(), args[5].parse().unwrap()),
        "mini" => global::mini(&args[2], &args[3], args[4].parse().unwrap(), args[5].parse().unwrap(),
            args.get(6).map_or(u64::MAX, |s| s.parse().unwrap())),
        "unit" => global::show_unit(&args[2], &args[3], args[4].parse().unwrap(), args[5].parse().unwrap()),
        _ => { eprintln!("usage: vpmon run PROP --tier T --seed S --out F"); std::process::exit(2) }
    }
}

fn run_cmd(args: &[String]) {
    let prop = args[2].clone();
    let tier = arg(args, "--tier").unwrap_or("quick".into());
    let seed: u64 = arg(args, "--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let out = arg(args, "--out");
    let scale: u64 = arg(args, "--scale").and_then(|s| s.parse().ok()).unwrap_or(1);
    let cap: u64 = arg(args, "--cap").and_then(|s| s.parse().ok()).unwrap_or(if tier == "quick" { 150 } else { 600 });
    let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8).min(16);
    let t0 = Instant::now();
    let (st, viol, capped, per) = match prop.as_str() {
        "G01" => global::run_g01(seed, 8 * scale * if tier == "quick" { 1 } else { 8 }, arg(args, "--rounds").and_then(|s| s.parse().ok()).unwrap_or(4)),
        _ => {
            let percent: u64 = arg(args, "--percent").and_then(|s| s.parse().ok()).unwrap_or(100);
            let n = (quick_cases(&prop) * scale * if tier == "quick" { 1 } else { 20 } * percent / 100).max(1);
            run(&prop, seed, n, Duration::from_secs(cap), threads)
        }
    };
    let wall = t0.elapsed().as_secs_f64();
    let mut j = String::from("{");
    j.push_str(&format!("\"property\":{},\"tier\":{},\"seed\":{},\"wall_s\":{:.3},\"capped\":{},\"cases\":{},\"checks\":{},\"distinct\":{},\"distinct_nontrivial\":{},",
        jstr(&prop), jstr(&tier), seed, wall, capped, st.cases, st.checks, st.distinct.len(), st.nontrivial.len()));
    let evs: Vec<String> = st.events.iter().map(|(k, v)| format!("{}:{}", jstr(k), v)).collect();
    j.push_str(&format!("\"events\":{{{}}},", evs.join(",")));
    let ps: Vec<String> = per.iter().map(|(k, v)| format!("{}:{}", jstr(k), v)).collect();
    j.push_str(&format!("\"cases_per_configuration\":{{{}}},", ps.join(",")));
    j.push_str(&format!("\"samples\":[{}],", st.samples.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(",")));
    let vs: Vec<String> = viol.iter().map(|v| format!("{{\"config\":{},\"index\":{},\"message\":{}}}", jstr(&v.cfg), v.idx, jstr(&v.msg))).collect();
    j.push_str(&format!("\"violations\":[{}]}}\n", vs.join(",")));
    match out { Some(p) => std::fs::write(p, j).unwrap(), None => print!("{}", j) }
    std::process::exit(if viol.is_empty() { 0 } else { 1 });
}
