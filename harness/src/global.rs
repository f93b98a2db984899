//! G01 (determinism and purity across histories and threads), the transcripts
//! compared across build profiles for G02, and the oracle's own self-dump.
use crate::*;
use safecurves_rust::curve::edwards::{EdwardsCurve, EdwardsExtended};
use safecurves_rust::curve::point::Point;
use safecurves_rust::normalize::*;
use rand::Rand;
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::AtomicU64;
use std::sync::Barrier;

/// Lines "op field a b result", recomputed by check.py with Python integers.
pub fn oracle_dump(seed: u64) {
    for f in FIELDS.iter().map(|n| fp(n)) {
        let mut r = Rng::new(hash_words(&[seed, hash_str(f.name)]));
        println!("modulus {} {}", f.name, w_hex(&f.p));
        for _ in 0..60 {
            let (a, b) = with_field!(f.name, F, (gen_w::<F>(&mut r, f).0, gen_w::<F>(&mut r, f).0));
            let i = gen_i32(&mut r);
            println!("add {} {} {} {}", f.name, w_hex(&a), w_hex(&b), w_hex(&f.add(&a, &b)));
            println!("sub {} {} {} {}", f.name, w_hex(&a), w_hex(&b), w_hex(&f.sub(&a, &b)));
            println!("mul {} {} {} {}", f.name, w_hex(&a), w_hex(&b), w_hex(&f.mul(&a, &b)));
            println!("small {} {} 0 {}", f.name, i, w_hex(&f.small(i as i64)));
            if i != 0 { println!("divi {} {} {} {}", f.name, w_hex(&a), i, w_hex(&f.div_i32(&a, i))); }
        }
        for _ in 0..6 {
            let a = with_field!(f.name, F, gen_w::<F>(&mut r, f).0);
            println!("inv {} {} 0 {}", f.name, w_hex(&a), w_hex(&f.inv(&a)));
            println!("leg {} {} 0 {}", f.name, w_hex(&a), f.legendre(&a));
            let s = f.sqrt(&a);
            println!("sqrt {} {} {} {}", f.name, w_hex(&a), s.is_some() as u8, w_hex(&s.unwrap_or(Z)));
        }
    }
    for c in curve_configs() {
        let e = env_for(&c);
        let mut r = Rng::new(hash_words(&[seed, hash_str(&c)]));
        for _ in 0..4 {
            let (p, q) = (ref_pick(&mut r, &e), ref_pick(&mut r, &e));
            let s = to_aff(e.cv.f, &e.cv.add(&e.cv.aff(&p.0, &p.1), &e.cv.aff(&q.0, &q.1)));
            println!("padd {} {} {} {} {} {} {} {}", e.cv.f.name, w_hex(&e.cv.d), w_hex(&p.0), w_hex(&p.1), w_hex(&q.0), w_hex(&q.1), w_hex(&s.0), w_hex(&s.1));
        }
        let p = ref_pick(&mut r, &e);
        let k = r.u64();
        let s = to_aff(e.cv.f, &e.cv.mulk(&w_u64(k), &e.cv.aff(&p.0, &p.1)));
        println!("pmul {} {} {} {} {:x} {} {}", e.cv.f.name, w_hex(&e.cv.d), w_hex(&p.0), w_hex(&p.1), k, w_hex(&s.0), w_hex(&s.1));
    }
}

struct Log { h: u64, text: Option<Vec<String>> }
impl Log {
    fn put(&mut self, what: &str, s: &str) {
        self.h = hash_words(&[self.h, hash_str(what), hash_str(s)]);
        if let Some(t) = &mut self.text { t.push(format!("{}={}", what, s)); }
    }
    fn val<F: Fld>(&mut self, what: &str, v: &F) {
        let w = obs(v);
        self.h = hash_words(&[self.h, hash_str(what), hash_words(&w)]);
        if let Some(t) = &mut self.text { t.push(format!("{}={}", what, w_hex(&w))); }
    }
}

fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }

/// A fixed sequence of calls covering the whole public field API, including
/// operands outside the documented domain of some calls (zero divisors,
/// non-residues, byte strings that are not canonical).
fn raw_field<F: Fld + Rand>(r: &mut Rng, f: &Fp, lg: &mut Log) {
    let a = gen_sv::<F>(r, f).0.v;
    let b = gen_sv::<F>(r, f).0.v;
    let i = gen_i32(r);
    let (h, k) = (r.u64() as i16, r.u64() as i8);
    let mut bytes: Vec<u8> = (0..F::NB).map(|_| r.u64() as u8).collect();
    match r.below(4) { 0 => bytes.iter_mut().for_each(|b| *b = 0xff), 1 => { let n = F::NB; bytes[n - 1] |= 0xfe; } _ => {} }
    lg.val("a", &a);
    lg.val("b", &b);
    lg.val("add", &F::add_r(&a, &b));
    lg.val("sub", &F::sub_r(&a, &b));
    lg.val("mul", &F::mul_r(&a, &b));
    lg.val("neg", &-a);
    lg.val("sq", &a.squared());
    lg.val("i32", &((a + i) * i - i));
    lg.val("i16", &((a + h) * h - h));
    lg.val("i8", &((a + k) * k - k));
    lg.val("legendre", &a.legendre());
    match r.below(5) {
        0 => { lg.val("inv", &a.inverted()); lg.val("div", &(b / a)); }
        1 => { lg.val("inv0", &(a - a).inverted()); lg.val("div0", &(b / F::modulus())); }
        2 => { lg.val("sqrt", &a.sqrt()); }
        3 => { lg.val("sqrt of square", &a.squared().sqrt()); }
        _ => { lg.val("sqrt of non-square", &(-a.squared()).sqrt()); lg.val("legendre0", &(a - a).legendre()); }
    }
    let (mut x, mut y) = (a, b);
    lg.put("eq", if x.normalize_eq(&mut y) { "t" } else { "f" });
    lg.val("eq left", &x);
    x.normalized_bitand(&y);
    lg.val("and", &x);
    let (mut x, mut y) = (a, b);
    x.normalize_bitor(&mut y);
    lg.val("or", &x);
    let mut x = a;
    let bits: String = (0..F::N).step_by(1 + r.below(7)).map(|i| if x.bit(i) { '1' } else { '0' }).collect();
    lg.put("bits", &bits);
    lg.put("hex", &format!("{:x}/{:X}", a, b));
    let u = F::unpacked(&bytes);
    lg.val("arbitrary bytes", &u);
    let mut u2 = b;
    u2.unpack(&bytes);
    lg.val("arbitrary bytes over b", &(u2 + a));
    let seed = r.u64();
    let mut src = crate::pf::Src::new(seed, 0);
    lg.val("rand", &F::rand(&mut src));
    lg.put("rand draws", &src.n.to_string());
    let mut c = a;
    lg.put("packed", &hex(&c.packed_vec()));
}

fn raw_curve<C: EdwardsCurve>(r: &mut Rng, e: &Env, lg: &mut Log) where C::Scalar: Fld {
    let p = gen_pt::<C>(r, e).p;
    let q = gen_pt::<C>(r, e).p;
    let mut pt = |lg: &mut Log, what: &str, p: &EdwardsExtended<C>| {
        let g = obs_pt(p);
        lg.put(what, &format!("{}:{}:{}", w_hex(&g.x), w_hex(&g.y), w_hex(&g.z)));
    };
    lg.val("d", &C::d_val());
    pt(lg, "p+q", &(p + q));
    pt(lg, "2p", &p.doubled());
    pt(lg, "3q", &q.tripled());
    let w = gen_scalar::<C::Scalar>(r, e.cv.f, &e.order);
    let mut k = crate::pf::rerep::<C::Scalar>(r, e.cv.f, &w).v;
    let mut m = p;
    m.scalar_mult(&mut k);
    pt(lg, "kp", &m);
    lg.val("k", &k);
    // coordinates that are not on the curve: still a pure function
    let (x, y) = (gen_sv::<C::Scalar>(r, e.cv.f).0.v, gen_sv::<C::Scalar>(r, e.cv.f).0.v);
    let mut o = q;
    o.init(x, y);
    pt(lg, "off-curve sum", &(o + p));
    pt(lg, "off-curve double", &o.doubled());
    pt(lg, "off-curve triple", &o.tripled());
}

#[derive(Clone)]
pub struct Unit { pub kind: String, pub cfg: String, pub idx: u64 }

pub fn units(seed: u64, n: u64) -> Vec<Unit> {
    let mut v = Vec::new();
    for i in 0..n {
        for f in FIELDS {
            v.push(Unit { kind: "raw".into(), cfg: f.into(), idx: i });
            for p in ["F13", "F05", "F14"] {
                if i % 8 == 0 { v.push(Unit { kind: p.into(), cfg: f.into(), idx: i }); }
            }
        }
        for (k, c) in curve_configs().iter().enumerate() {
            if (i as usize + k) % 4 == 0 { v.push(Unit { kind: "rawc".into(), cfg: c.clone(), idx: i }); }
            if (i as usize + k) % 16 == 0 { v.push(Unit { kind: "C05".into(), cfg: c.clone(), idx: i }); }
        }
    }
    // mix kinds and configurations, reproducibly
    let mut r = Rng::new(seed ^ 0x51ab);
    for i in (1..v.len()).rev() { let j = r.below(i + 1); v.swap(i, j); }
    v
}

pub fn envs() -> &'static BTreeMap<String, Env<'static>> {
    static E: std::sync::OnceLock<BTreeMap<String, Env<'static>>> = std::sync::OnceLock::new();
    E.get_or_init(|| {
        let c = curve_configs();
        let out = Mutex::new(BTreeMap::new());
        std::thread::scope(|s| for part in c.chunks((c.len() + 7) / 8) {
            let out = &out;
            s.spawn(move || for n in part { let e = env_for(n); out.lock().unwrap().insert(n.clone(), e); });
        });
        out.into_inner().unwrap()
    })
}

/// Everything observable about one unit, condensed (or spelled out).
pub fn unit(u: &Unit, seed: u64, text: bool) -> (u64, Vec<String>) {
    let mut lg = Log { h: 7, text: if text { Some(vec![]) } else { None } };
    let mut r = Rng::new(hash_words(&[seed, hash_str(&u.kind), hash_str(&u.cfg), u.idx]));
    match u.kind.as_str() {
        "raw" | "rawc" => {
            let res = catch_unwind(AssertUnwindSafe(|| {
                if u.kind == "raw" {
                    let f = fp(&u.cfg);
                    with_field!(u.cfg.as_str(), F, raw_field::<F>(&mut r, f, &mut lg));
                } else {
                    let e = &envs()[&u.cfg];
                    with_curve!(u.cfg, C, raw_curve::<C>(&mut r, e, &mut lg));
                }
            }));
            if res.is_err() {
                let at = LAST_PANIC.with(|l| l.borrow().clone());
                lg.put("PANIC", &at);
                if !text { lg.h = hash_words(&[PANICKED, lg.h]); return (lg.h | 1 << 63, vec![]); }
            }
        }
        p => {
            let mut st = Stats::default();
            let e = if p.starts_with('F') { None } else { Some(&envs()[&u.cfg]) };
            let res = one(p, &u.cfg, e, seed, u.idx, &mut st);
            lg.put("transcript", &format!("{:x}", st.transcript));
            let bad = matches!(&res, Err(m) if m.contains("panicked"));
            lg.put("result", &format!("{:?}", res));
            if bad { return (lg.h | 1 << 63, lg.text.unwrap_or_default()); }
        }
    }
    // the top bit says "panicked", see above
    (lg.h & !(1 << 63), lg.text.unwrap_or_default())
}
const PANICKED: u64 = 0xdead;

/// One line per unit: hash and whether it panicked.
pub fn transcript_cmd(seed: u64, n: u64) {
    let us = units(seed, n);
    envs();
    let out: Vec<AtomicU64> = us.iter().map(|_| AtomicU64::new(0)).collect();
    let next = AtomicUsize::new(0);
    std::thread::scope(|s| for _ in 0..8 {
        s.spawn(|| loop {
            let i = next.fetch_add(1, Ordering::Relaxed);
            if i >= us.len() { break; }
            out[i].store(unit(&us[i], seed, false).0, Ordering::Relaxed);
        });
    });
    let mut o = String::new();
    for (u, h) in us.iter().zip(&out) {
        let h = h.load(Ordering::Relaxed);
        o.push_str(&format!("{} {} {} {:016x}{}\n", u.kind, u.cfg, u.idx, h, if h >> 63 == 1 { " panic" } else { "" }));
    }
    print!("{}", o);
}

/// The same lines, in a process whose first work is on the given configuration:
/// by one thread, or by eight at once that all start there.  A unit is printed
/// with every result that was seen for it (one, if nothing depends on history).
pub fn fresh_cmd(seed: u64, n: u64, first: &str, threads: usize) {
    let us = units(seed, n);
    envs();
    let seen: Vec<Mutex<Vec<u64>>> = us.iter().map(|_| Mutex::new(vec![])).collect();
    let barrier = Barrier::new(threads);
    std::thread::scope(|s| for t in 0..threads {
        let (us, seen, barrier) = (&us, &seen, &barrier);
        s.spawn(move || {
            let mut r = Rng::new(hash_words(&[seed, hash_str(first), t as u64]));
            let mut order: Vec<usize> = (0..us.len()).collect();
            for i in (1..order.len()).rev() { let j = r.below(i + 1); order.swap(i, j); }
            order.sort_by_key(|i| (us[*i].cfg != first) as u8);
            barrier.wait();
            for i in order {
                let h = unit(&us[i], seed, false).0;
                let mut l = seen[i].lock().unwrap();
                if !l.contains(&h) { l.push(h); l.sort(); }
            }
        });
    });
    for (u, h) in us.iter().zip(&seen) {
        let h: Vec<String> = h.lock().unwrap().iter().map(|x| format!("{:016x}", x)).collect();
        println!("{} {} {} {}", u.kind, u.cfg, u.idx, h.join("/"));
    }
}

/// Words that agree with `w` in all but a few places.
fn kin(f: &Fp, r: &mut Rng, w: &W) -> Vec<W> {
    let mut v = vec![*w, f.neg(w)];
    for k in 0..6 {
        // one bit, in each sixth of the length
        let b = k * f.n / 6 + r.below(f.n / 6);
        v.push(f.red(&if w[b / 64] >> (b % 64) & 1 == 1 { w_sub(w, &w_pow2(b)) } else { w_add(w, &w_pow2(b)) }));
    }
    // another top half, another bottom half
    let t: Vec<u64> = (0..L).map(|_| r.u64()).collect();
    let h = f.n / 128;
    let mut x = *w;
    for i in 0..h { x[i] = t[i]; }
    v.push(f.red(&x));
    let mut x = *w;
    for i in h..f.n / 64 { x[i] = t[i]; }
    v.push(f.red(&x));
    v
}

const KIN_FIELD: [&str; 22] = ["neg", "square", "inverse", "legendre", "root", "pack", "hex", "bits", "equal", "small+", "small*",
    "+b", "b-", "-b", "*b", "/b", "b/", "digit+", "digit-", "digit*", "and", "unpack"];
const KIN_POINT: [&str; 6] = ["double", "triple", "+Q", "Q+", "k*", "*P"];
const DIGITS: [i32; 10] = [7, 7 + 256, 7 + 65536, 7 + (1 << 24), -7, 7 - 256, 7 - 65536, i32::MIN + 7, 6, 8];

fn kin_field<F: Fld>(f: &Fp, op: &str, a: &F, b: &F, d: i32) -> u64 {
    let mut lg = Log { h: 7, text: None };
    let mut x = *a;
    match op {
        "neg" => lg.val(op, &-x),
        "square" => lg.val(op, &x.squared()),
        "inverse" => lg.val(op, &x.inverted()),
        "legendre" => lg.val(op, &x.legendre()),
        "root" => lg.val(op, &x.sqrt()),
        "pack" => lg.put(op, &hex(&x.packed_vec())),
        "hex" => lg.put(op, &format!("{:x}", x)),
        "bits" => lg.put(op, &(0..f.n).map(|i| if x.bit(i) { '1' } else { '0' }).collect::<String>()),
        "equal" => { let mut y = *b; lg.put(op, if x.normalize_eq(&mut y) { "t" } else { "f" }) }
        "small+" => lg.val(op, &x.small_add(12345)),
        "small*" => lg.val(op, &x.small_mul(12345)),
        "+b" => lg.val(op, &(x + *b)),
        "b-" => lg.val(op, &(*b - x)),
        "-b" => lg.val(op, &(x - *b)),
        "*b" => lg.val(op, &(x * *b)),
        "/b" => lg.val(op, &(x / *b)),
        "b/" => lg.val(op, &(*b / x)),
        "digit+" => lg.val(op, &(*b + d)),
        "digit-" => lg.val(op, &(*b - d)),
        "digit*" => lg.val(op, &(*b * d)),
        "and" => { let mut y = *b; x.normalize_bitand(&mut y); lg.val(op, &x) }
        _ => { let p = x.packed_vec(); let mut y = *b; y.unpack(&p); lg.val(op, &y) }
    }
    lg.h
}

/// Calls on operands that nearly coincide, one right after the other, in every
/// ordered pair: nothing a call leaves behind may reach the next.  One line per
/// call with every result that was seen for it.
pub fn kin_cmd(seed: u64, families: u64, order: u64, threads: usize) {
    let mut cfgs: Vec<String> = FIELDS.iter().map(|f| f.to_string()).collect();
    for (i, c) in curve_configs().iter().enumerate() { if i < 5 || i % 6 == 0 { cfgs.push(c.clone()); } }
    envs();
    let mut jobs: Vec<(usize, u64, usize)> = Vec::new();
    for (i, c) in cfgs.iter().enumerate() {
        let field = FIELDS.contains(&c.as_str());
        for k in 0..if field { families } else { (families / 8).max(1) } {
            for op in 0..if field { KIN_FIELD.len() } else { KIN_POINT.len() } { jobs.push((i, k, op)); }
        }
    }
    for j in jobs {
        let cfg = &cfgs[j.0];
        let field = FIELDS.contains(&cfg.as_str());
        let mut r = Rng::new(hash_words(&[seed, hash_str(cfg), j.1]));
        let op = if field { KIN_FIELD[j.2] } else { KIN_POINT[j.2] };
        let mut seen: Vec<Vec<u64>> = Vec::new();
        // a sequence in which every call follows every other
        let mut walk = |n: usize, call: &(dyn Fn(usize) -> u64 + Sync)| {
            let guarded = |i: usize| catch_unwind(AssertUnwindSafe(|| call(i))).unwrap_or(PANICKED);
            let guarded = &guarded;
            let all: Vec<Mutex<Vec<u64>>> = (0..n).map(|_| Mutex::new(vec![])).collect();
            let barrier = Barrier::new(threads);
            std::thread::scope(|s| for t in 0..threads {
                let (all, barrier) = (&all, &barrier);
                s.spawn(move || {
                    let mut o = Rng::new(hash_words(&[seed, order, t as u64, j.0 as u64, j.1, j.2 as u64]));
                    let mut pairs: Vec<(usize, usize)> = (0..n * n).map(|i| (i / n, i % n)).collect();
                    for i in (1..pairs.len()).rev() { let k = o.below(i + 1); pairs.swap(i, k); }
                    if threads > 1 { pairs.truncate(n * n / if threads > 4 { 3 } else { 12 }); }
                    // so that what an operation does in a process for the first time, it does in all threads
                    barrier.wait();
                    for (a, b) in pairs {
                        for i in [a, b] {
                            let h = guarded(i);
                            let mut l = all[i].lock().unwrap();
                            if !l.contains(&h) { l.push(h); }
                        }
                    }
                });
            });
            seen = all.into_iter().map(|m| { let mut v = m.into_inner().unwrap(); v.sort(); v }).collect();
        };
        if field {
            let f = fp(cfg);
            with_field!(cfg.as_str(), F, {
                let w = gen_w::<F>(&mut r, f).0;
                let mut el: Vec<F> = kin(f, &mut r, &w).iter().map(|x| from_w(x)).collect();
                for _ in 0..2 { el.push(crate::pf::rerep::<F>(&mut r, f, &w).v); }
                let b: F = if r.bool() { el[0] } else { gen_sv::<F>(&mut r, f).0.v };
                walk(el.len(), &|i| kin_field::<F>(f, op, &el[i], &b, DIGITS[i % DIGITS.len()]));
            });
        } else {
            let e = &envs()[cfg];
            with_curve!(cfg, C, {
                type S<C> = <C as EdwardsCurve>::Scalar;
                let f = e.cv.f;
                let (a, b) = (ref_pick(&mut r, e), ref_pick(&mut r, e));
                let mut el: Vec<EdwardsExtended<C>> = (0..8).map(|k| mk::<C>(&mut r, e, &image(f, &a, k)).p).collect();
                let q = mk::<C>(&mut r, e, &b).p;
                for k in 0..4 { let s = el[2 * k]; el.push(if k < 2 { s + q } else { s.doubled() }); }
                let w = gen_scalar::<S<C>>(&mut r, f, &e.order);
                let ks: Vec<S<C>> = kin(f, &mut r, &w).iter().map(|x| from_w(x)).collect();
                let n = if j.2 < 4 { el.len() } else { 5 };
                let skip = r.below(4);
                walk(n, &|i| {
                    let p = match j.2 {
                        0 => el[i].doubled(),
                        1 => el[i].tripled(),
                        2 => el[i] + q,
                        3 => q + el[i],
                        4 => { let mut p = el[2 * i]; let mut k = ks[0]; p.scalar_mult(&mut k); p }
                        _ => { let mut p = el[0]; let mut k = ks[i + skip]; p.scalar_mult(&mut k); p }
                    };
                    let g = obs_pt(&p);
                    hash_words(&[hash_words(&g.x), hash_words(&g.y), hash_words(&g.z)])
                });
            });
        }
        for (i, v) in seen.iter().enumerate() {
            println!("{} {} {} {} {}", cfg, op, j.1, i, v.iter().map(|x| format!("{:016x}", x)).collect::<Vec<_>>().join("/"));
        }
    }
}

/// Full text of one unit, for reports.
pub fn show_unit(kind: &str, cfg: &str, idx: u64, seed: u64) {
    envs();
    for l in unit(&Unit { kind: kind.into(), cfg: cfg.into(), idx }, seed, true).1 { println!("{}", l); }
}

pub fn run_g01(seed: u64, n: u64, rounds: u64) -> (Stats, Vec<Violation>, bool, Vec<(String, u64)>) {
    let us = units(seed, n);
    envs();
    let mut st = Stats::default();
    let mut viol = Vec::new();
    // A: one thread, in order
    let base: Vec<u64> = us.iter().map(|u| unit(u, seed, false).0).collect();
    for (u, h) in us.iter().zip(&base) {
        st.cases += 1;
        st.fp(hash_words(&[hash_str(&u.kind), hash_str(&u.cfg), *h]), true);
    }
    let report = |viol: &mut Vec<Violation>, i: usize, how: &str| {
        let u = &us[i];
        viol.push(Violation { cfg: format!("{}@{}", u.kind, u.cfg), idx: u.idx,
            msg: format!("unit {} on {} (case {}) gave a different result {}", u.kind, u.cfg, u.idx, how) });
    };
    // B: again, in other orders, in the same thread and in a fresh one
    for round in 0..rounds {
        let mut order: Vec<usize> = (0..us.len()).collect();
        if round == 0 { order.reverse(); } else {
            let mut r = Rng::new(seed ^ (round << 20));
            for i in (1..order.len()).rev() { let j = r.below(i + 1); order.swap(i, j); }
        }
        let bad: Vec<usize> = if round % 2 == 0 {
            order.iter().filter(|i| unit(&us[**i], seed, false).0 != base[**i]).cloned().collect()
        } else {
            std::thread::scope(|s| s.spawn(|| order.iter().filter(|i| unit(&us[**i], seed, false).0 != base[**i]).cloned().collect()).join().unwrap())
        };
        st.checks += us.len() as u64;
        st.ev("reordered sequential replays", 1);
        for i in bad.into_iter().take(3) { report(&mut viol, i, "when replayed after other work"); }
    }
    // C: eight threads at once, every one running every unit in its own order
    let clock = AtomicU64::new(0);
    for round in 0..rounds {
        let barrier = Barrier::new(8);
        let spans: Mutex<Vec<(u64, u64, usize, usize)>> = Mutex::new(Vec::new());
        let bad: Mutex<Vec<usize>> = Mutex::new(Vec::new());
        std::thread::scope(|s| for t in 0..8usize {
            let (us, base, barrier, spans, bad, clock) = (&us, &base, &barrier, &spans, &bad, &clock);
            s.spawn(move || {
                let mut r = Rng::new(hash_words(&[seed, round, t as u64]));
                let mut order: Vec<usize> = (0..us.len()).collect();
                for i in (1..order.len()).rev() { let j = r.below(i + 1); order.swap(i, j); }
                if round % 2 == 1 {
                    // all threads on the same configuration at the same time
                    order.sort_by(|a, b| us[*a].cfg.cmp(&us[*b].cfg));
                }
                let mut mine = Vec::new();
                barrier.wait();
                for i in order {
                    if r.one_in(16) { std::thread::yield_now(); }
                    let a = clock.fetch_add(1, Ordering::SeqCst);
                    let h = unit(&us[i], seed, false).0;
                    let b = clock.fetch_add(1, Ordering::SeqCst);
                    mine.push((a, b, t, i));
                    if h != base[i] { bad.lock().unwrap().push(i); }
                }
                spans.lock().unwrap().extend(mine);
            });
        });
        let mut sp = spans.into_inner().unwrap();
        st.checks += sp.len() as u64;
        st.ev("units run concurrently", sp.len() as u64);
        // what really overlapped
        sp.sort();
        let mut open: Vec<(u64, usize, usize)> = Vec::new();
        let mut pairs: HashSet<u64> = HashSet::new();
        let mut same_cfg = 0u64;
        let mut overl = 0u64;
        for (a, b, t, i) in &sp {
            open.retain(|o| o.0 > *a);
            for o in &open {
                overl += 1;
                if us[o.2].cfg == us[*i].cfg { same_cfg += 1; }
                pairs.insert(hash_words(&[hash_str(&us[o.2].cfg), hash_str(&us[o.2].kind), hash_str(&us[*i].cfg), hash_str(&us[*i].kind)]));
            }
            open.push((*b, *t, *i));
        }
        st.ev("overlapping unit pairs observed", overl);
        st.ev("overlapping pairs on one field or curve", same_cfg);
        st.ev(&format!("distinct (kind, configuration) pairs seen overlapping, round {}", round), pairs.len() as u64);
        for i in bad.into_inner().unwrap().into_iter().take(3) { report(&mut viol, i, "when run concurrently with others"); }
    }
    st.sample(|| format!("unit {} on {}: {}", us[0].kind, us[0].cfg, unit(&us[0], seed, true).1.join(" ").chars().take(600).collect::<String>()));
    let mut per: BTreeMap<String, u64> = BTreeMap::new();
    for u in &us { *per.entry(u.cfg.clone()).or_default() += 1; }
    (st, viol, false, per.into_iter().collect())
}

/// A small single-threaded workload over the whole API of one field or named
/// curve, for interpreters that are ten thousand times slower than hardware.
pub fn mini(kind: &str, cfg: &str, seed: u64, n: u64, budget: u64) {
    let t0 = std::time::Instant::now();
    let mut done = 0;
    let mut st = Stats::default();
    let mut lg = Log { h: 7, text: None };
    for i in 0..n {
        if i > 0 && t0.elapsed().as_secs() >= budget { break; }
        done = i + 1;
        let mut r = Rng::new(hash_words(&[seed, hash_str(kind), hash_str(cfg), i]));
        let res = catch_unwind(AssertUnwindSafe(|| if kind == "field" {
            let f = fp(cfg);
            for p in ["F01", "F02", "F04", "F05", "F06", "F10", "F12"] {
                if let Err(m) = field_case(p, cfg, &mut r, &mut st) { println!("VIOLATED {} {}", p, m); }
            }
            with_field!(cfg, F, {
                raw_field::<F>(&mut r, f, &mut lg);
                let a = gen_sv::<F>(&mut r, f).0.v;
                let c = [F::c_zero(), F::c_one(), F::c_m_one(), F::c_modulus()];
                lg.val("c", &c[r.below(4)]);
                for (_, v) in F::forms_self(&a) { lg.val("s", &v) }
                for (_, v) in F::forms_sadd(&a, 7) { lg.val("s", &v) }
                for (_, v) in F::forms_ssub(&a, -7) { lg.val("s", &v) }
                for (_, v) in F::forms_smul(&a, 77) { lg.val("s", &v) }
                lg.put("dbg", &format!("{:?}", a));
                let (x, y) = (gen_sv::<F>(&mut r, f).0.v, gen_sv::<F>(&mut r, f).0.v);
                lg.val("digits", &F::small_all(&x, gen_i32(&mut r), r.u64() as i16, r.u64() as i8));
                lg.val("binary", &F::binary_all(&x, &y));
                for mode in 0..5 {
                    let mut src = crate::pf::Src::new(r.u64(), mode);
                    lg.val("rand", &F::rand(&mut src));
                    lg.put("draws", &src.n.to_string());
                }
            });
        } else {
            let i = NAMED.iter().find(|c| c.name == cfg).unwrap();
            let f = fp(i.field);
            with_curve!(cfg, C, {
                let mut p = EdwardsExtended::<C>::zero();
                let z = p;
                p.init(from_w(&w_from_hex(i.bx)), from_w(&w_from_hex(i.by)));
                let mut q = p.doubled() + p.tripled();
                q += &z;
                q.triple();
                let w = gen_scalar(&mut r, f, &Some(w_from_hex(i.order)));
                let mut k: <C as EdwardsCurve>::Scalar = from_w(&w);
                q.scalar_mult(&mut k);
                let g = obs_pt(&q);
                lg.put("q", &w_hex(&g.x));
                lg.val("d", &C::d_val());
                fn gen_scalar(r: &mut Rng, f: &Fp, o: &Option<W>) -> W {
                    if r.bool() { *o.as_ref().unwrap() } else { f.red(&[r.u64(), r.u64(), r.u64(), r.u64(), r.u64(), r.u64(), r.u64(), r.u64(), r.u64()]) }
                }
            });
        }));
        if res.is_err() {
            let at = crate::LAST_PANIC.with(|l| l.borrow().clone());
            println!("PANIC at {}", at);
            lg.put("panic", &at);
        }
    }
    println!("mini {} {} rounds {} checks {} digest {:016x}", kind, cfg, done, st.checks, lg.h ^ st.transcript);
}

pub const SWEPT: [&str; 21] = ["F01", "F02", "F03", "F04", "F05", "F06", "F07", "F08", "F09", "F10", "F11", "F12", "F13", "F14",
    "C01", "C02", "C03", "C04", "C05", "C07", "S01"];

/// Digest of everything observed in the cases of one chunk.
pub fn sweep_chunk(p: &str, c: &str, e: Option<&Env>, seed: u64, lo: u64, hi: u64) -> String {
    let mut st = Stats::default();
    let mut h = 0u64;
    let mut note = String::new();
    for idx in lo..hi {
        let res = one(p, c, e, seed, idx, &mut st);
        if let Err(m) = &res {
            h = hash_words(&[h, idx, hash_str(m)]);
            if m.contains("the code under test panicked") && note.is_empty() {
                note = format!(" panic {} {}", idx, m.replace('\n', " "));
            }
        }
    }
    format!("{} {} {} {} {:016x} {}{}", p, c, lo, hi, hash_words(&[h, st.transcript]), st.checks, note)
}

/// The workloads of all field and point monitors, in chunks: one line per
/// chunk with the digest of everything observed in it.  However slow the code
/// is: chunks not begun within the budget are left out.
pub fn sweep_cmd(seed: u64, permille: u64, budget: u64, only: &str) {
    let t0 = std::time::Instant::now();
    envs();
    let mut jobs: Vec<(&str, String, u64, u64)> = Vec::new();
    for p in SWEPT.iter().filter(|p| only.is_empty() || only.split(',').any(|o| o == **p)) {
        let n = (quick_cases(p) * permille / 1000).max(1);
        let parts = if p.starts_with('F') { 16 } else { 4 };
        let chunk = (n + parts - 1) / parts;
        for c in configs(p) { for lo in (0..n).step_by(chunk as usize) { jobs.push((p, c.clone(), lo, (lo + chunk).min(n))); } }
    }
    // in an order that mixes everything, for what is done when time runs out
    let mut order: Vec<usize> = (0..jobs.len()).collect();
    order.sort_by_key(|i| hash_words(&[*i as u64, 11]));
    let out: Vec<Mutex<String>> = jobs.iter().map(|_| Mutex::new(String::new())).collect();
    let next = AtomicUsize::new(0);
    std::thread::scope(|s| for _ in 0..8 {
        s.spawn(|| loop {
            let i = next.fetch_add(1, Ordering::Relaxed);
            if i >= jobs.len() || t0.elapsed().as_secs() >= budget { break; }
            let i = order[i];
            let (p, c, lo, hi) = &jobs[i];
            let e = if p.starts_with('F') { None } else { Some(&envs()[c]) };
            *out[i].lock().unwrap() = sweep_chunk(p, c, e, seed, *lo, *hi);
        });
    });
    for o in out {
        let l = o.into_inner().unwrap();
        if !l.is_empty() { println!("{}", l); }
    }
}

/// One line per case of a chunk (to find the first difference).
pub fn sweep_cases(prop: &str, cfg: &str, seed: u64, lo: u64, hi: u64) {
    let e = if prop.starts_with('F') { None } else { Some(env_for(cfg)) };
    for idx in lo..hi {
        let mut st = Stats::default();
        let res = one(prop, cfg, e.as_ref(), seed, idx, &mut st);
        println!("{} {:016x} {}", idx, st.transcript, match res { Ok(()) => "held".into(), Err(m) => m.replace('\n', " ") });
    }
}
