//! Constant-time workload, run under valgrind: the secret operands are marked
//! undefined, so that memcheck reports every branch and every address that
//! depends on them.  One line per observation on stdout.
//!
//!   vpct list              the cases
//!   vpct run SEED CASE...  run them (under valgrind)
#[allow(dead_code)]
#[path = "../../harness/src/fields.rs"]
mod fields;
use fields::*;
use safecurves_rust::curve::curve1174::Curve1174;
use safecurves_rust::curve::curve41417::Curve41417;
use safecurves_rust::curve::e_222::E222;
use safecurves_rust::curve::e_382::E382;
use safecurves_rust::curve::e_521::E521;
use safecurves_rust::curve::edwards::{EdwardsCurve, EdwardsExtended};
use safecurves_rust::curve::point::Point;
use safecurves_rust::normalize::Normalize;
use std::hint::black_box;
use std::mem::size_of;

// ---- valgrind client requests -------------------------------------------

#[inline(never)]
fn request3(req: u64, a: u64, b: u64, c: u64) -> u64 {
    let args = [req, a, b, c, 0, 0];
    let mut out: u64 = 0;
    unsafe {
        std::arch::asm!(
            "rol rdi, 3", "rol rdi, 13", "rol rdi, 61", "rol rdi, 51",
            "xchg rbx, rbx",
            in("rax") args.as_ptr(),
            inout("rdx") out,
            inout("rdi") 0u64 => _,
        );
    }
    out
}
fn request(req: u64, a: u64, b: u64) -> u64 { request3(req, a, b, 0) }
fn running() -> bool { request(0x1001, 0, 0) > 0 }
fn errors() -> u64 { request(0x1201, 0, 0) }
fn secret<T>(x: &mut T) { black_box(request(0x4d430001, x as *mut T as u64, size_of::<T>() as u64)); black_box(x); }
fn public<T>(x: &mut T) { black_box(request(0x4d430002, x as *mut T as u64, size_of::<T>() as u64)); black_box(x); }
fn public_bytes(x: &mut [u8]) { black_box(request(0x4d430002, x.as_mut_ptr() as u64, x.len() as u64)); black_box(x); }

/// How many bytes of the value memcheck still holds to be secret.
fn secret_bytes<T>(x: &T) -> u64 {
    let n = size_of::<T>();
    let mut v = vec![0u8; n];
    if request3(0x4d430008, x as *const T as u64, v.as_mut_ptr() as u64, n as u64) != 1 { return 0; }
    black_box(&mut v);
    v.iter().filter(|b| **b != 0).count() as u64
}

/// Declare a result public again; returns how much of it was secret.
fn reveal<T>(x: &mut T) -> u64 { black_box(&x); let n = secret_bytes(x); public(x); n }

// ---- workload -----------------------------------------------------------

pub struct Rng(u64);
impl Rng {
    fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
}

fn bytes<F: Fld>(r: &mut Rng) -> Vec<u8> {
    let mode = r.u64() % 4;
    let mut b: Vec<u8> = (0..F::NB).map(|_| match mode { 0 => r.u64() as u8, 1 => 0, 2 => 0xff, _ => if r.u64() % 3 == 0 { 0xff } else { 0 } }).collect();
    // below the modulus: the top bit is clear
    let top = F::N - 1;
    b[F::NB - 1] &= ((1u32 << (top % 8)) - 1) as u8;
    b
}

/// A secret value in some representation.
fn val<F: Fld>(r: &mut Rng) -> F {
    let a = F::unpacked(&bytes::<F>(r));
    let b = F::unpacked(&bytes::<F>(r));
    let mut v = match r.u64() % 6 {
        0 | 1 => a,
        2 => a + b,
        3 => a - b,
        4 => F::zero() - a,
        _ => a.small_mul(r.u64() as i32),
    };
    secret(&mut v);
    v
}

const FOPS: [&str; 27] = ["add", "sub", "neg", "mul", "square", "add_assign", "sub_assign", "mul_assign",
    "small_add", "small_sub", "small_mul", "normalize", "pack", "pack_normalized", "unpack", "bit", "bit_normalized", "fill",
    "bitand", "bitor", "invert", "divide", "legendre", "sqrt",
    "small_forms", "binary_forms", "divide_forms"];

fn field_op<F: Fld>(op: &str, r: &mut Rng) -> u64 {
    let (a, b) = (val::<F>(r), val::<F>(r));
    let mut i = r.u64() as i32;
    secret(&mut i);
    let mut out = a;
    match op {
        "add" => out = a + b,
        "sub" => out = a - b,
        "neg" => out = -a,
        "mul" => out = a * b,
        "square" => { out = a.squared(); let mut c = b; c.square(); out += c }
        "add_assign" => { out += b; F::add_ar(&mut out, &b) }
        "sub_assign" => { out -= b; F::sub_ar(&mut out, &b) }
        "mul_assign" => { out *= b; F::mul_ar(&mut out, &b) }
        "small_add" => { out = a.small_add(i); out += i; out += i as i16; out += i as i8 }
        "small_sub" => { out = a.small_sub(i); out -= i; out -= i as i16; out -= i as i8 }
        "small_mul" => { out = a.small_mul(i); out *= i; out *= i as i16; out *= i as i8 }
        "normalize" => out.normalize(),
        "pack" => { let mut buf = vec![0u8; F::NB]; out.pack(&mut buf); public_bytes(&mut buf); black_box(&buf); }
        "pack_normalized" => { out.normalize(); let mut buf = vec![0u8; F::NB]; out.pack_normalized(&mut buf); public_bytes(&mut buf); black_box(&buf); }
        "unpack" => {
            let mut buf = bytes::<F>(r);
            black_box(request(0x4d430001, buf.as_mut_ptr() as u64, buf.len() as u64));
            black_box(&mut buf);
            out = F::unpacked(&buf);
            out.unpack(&buf);
            public_bytes(&mut buf);
        }
        "bit" => for k in 0..F::N { let mut c = if k % 2 == 0 { a } else { out }; let mut x = c.bit(k); black_box(&x); public(&mut x); }
        "bit_normalized" => { out.normalize(); for k in 0..F::N { let mut x = out.bit_normalized(k); black_box(&x); public(&mut x); } }
        "fill" => { for k in [0, 7, F::N - 1] { let x = out.bit(k); out = F::filled(x); let mut c = a; c.fill(!x); out += c; out.normalize() } }
        "bitand" => { let mut c = b; out.normalize_bitand(&mut c); out.normalize_self_bitand(&c); c.normalized_bitand(&out); out = c }
        "bitor" => { let mut c = b; out.normalize_bitor(&mut c); out.normalize_self_bitor(&c); c.normalized_bitor(&out); out = c }
        "invert" => { out = a.inverted(); }
        "divide" => { out = a / b; }
        "legendre" => { out = a.legendre(); }
        "sqrt" => { out = a.sqrt(); }
        "small_forms" => {
            let (mut h, mut k) = (r.u64() as i16, r.u64() as i8);
            secret(&mut h);
            secret(&mut k);
            out = F::small_all(&a, i, h, k);
        }
        "binary_forms" => { out = F::binary_all(&a, &b); }
        "divide_forms" => { out = F::div_all(&a, &b); }
        other => panic!("unknown operation {}", other),
    }
    let n = reveal(&mut out);
    black_box(out);
    n
}

const COPS: [&str; 6] = ["scalar_mult", "scalar_mult_normalized", "point_add", "double", "triple", "init"];

fn curve_op<C: EdwardsCurve>(op: &str, r: &mut Rng) -> u64 where C::Scalar: Fld {
    // the formulas are straight-line on any coordinates
    let mk = |r: &mut Rng| { let mut p = EdwardsExtended::<C>::zero(); let (x, y) = (val(r), val(r)); p.init(x, y); secret(&mut p); p };
    let (mut p, q) = (mk(r), mk(r));
    let mut k = val::<C::Scalar>(r);
    match op {
        "scalar_mult" => p.scalar_mult(&mut k),
        "scalar_mult_normalized" => { k.normalize(); p.scalar_mult_normalized(&k) }
        "point_add" => { p += q; p = p + q; p += &q; p = &p + &q; }
        "double" => { p.double(); p = p.doubled(); }
        "triple" => { p.triple(); p = p.tripled(); }
        "init" => { let (x, y) = (val(r), val(r)); p.init(x, y) }
        other => panic!("unknown operation {}", other),
    }
    let n = reveal(&mut p);
    public(&mut k);
    black_box((p, k));
    n
}

const CURVES: [&str; 5] = ["E-222", "Curve1174", "E-382", "Curve41417", "E-521"];

#[inline(never)]
fn leaky_branch(x: u64) -> u64 { let mut s = 0; for i in 0..64 { if (x >> i) & 1 == 1 { s = black_box(s + i); } } s }
#[inline(never)]
fn leaky_lookup(t: &[u64; 256], x: u64) -> u64 { t[(x & 255) as usize] }

fn one(case: &str, seed: u64) -> u64 {
    let parts: Vec<&str> = case.split('/').collect();
    let mut h = seed;
    for b in case.bytes() { h = (h ^ b as u64).wrapping_mul(0x100000001b3); }
    let mut r = Rng(h);
    match parts[0] {
        "field" => with_field!(parts[1], F, field_op::<F>(parts[2], &mut r)),
        "curve" => match parts[1] {
            "E-222" => curve_op::<E222>(parts[2], &mut r),
            "Curve1174" => curve_op::<Curve1174>(parts[2], &mut r),
            "E-382" => curve_op::<E382>(parts[2], &mut r),
            "Curve41417" => curve_op::<Curve41417>(parts[2], &mut r),
            _ => curve_op::<E521>(parts[2], &mut r),
        },
        "control" => {
            let mut x = r.u64() | 1;
            secret(&mut x);
            let mut o = match parts[1] {
                "branch" => leaky_branch(x),
                "lookup" => { let t = [7u64; 256]; black_box(leaky_lookup(black_box(&t), x)) }
                // straight-line: must stay quiet and come out secret
                _ => black_box(x ^ (x << 7)).wrapping_mul(x),
            };
            let n = reveal(&mut o);
            public(&mut x);
            black_box((o, x));
            n
        }
        _ => panic!("unknown case {}", case),
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    match args[1].as_str() {
        "list" => {
            for f in FIELDS { for o in FOPS { println!("field/{}/{}", f, o); } }
            for c in CURVES { for o in COPS { println!("curve/{}/{}", c, o); } }
            for c in ["branch", "lookup", "straight"] { println!("control/{}", c); }
        }
        "run" => {
            if !running() { eprintln!("not under valgrind"); std::process::exit(2); }
            let seed: u64 = args[2].parse().unwrap();
            let reps: u64 = args[3].parse().unwrap();
            for c in &args[4..] {
                let expensive = c.contains("scalar_mult") || c.contains("legendre") || c.contains("sqrt") || c.contains("invert") || c.contains("divide");
                let n = if expensive { (reps / 8).max(1) } else { reps };
                let before = errors();
                let (mut hits, mut sec) = (0, 0);
                for i in 0..n {
                    let e = errors();
                    eprintln!("begin {} {}", c, i);
                    if one(c, seed + 1000 * i) > 0 { sec += 1 }
                    if errors() > e { hits += 1 }
                }
                println!("case {} executions {} leaking {} reports {} secret-results {}", c, n, hits, errors() - before, sec);
            }
            println!("done");
        }
        _ => std::process::exit(2),
    }
}
