//! Workload generation: a seeded PRNG, hostile residues, and "shadowed" field
//! values, i.e. values of the code under test (in whatever lazily normalised
//! representation the public operations left them) together with the residue
//! the reference says they stand for.
use crate::bigref::*;
use crate::fields::Fld;

#[derive(Clone)]
pub struct Rng { s: [u64; 4] }

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() { h ^= b as u64; h = h.wrapping_mul(0x100000001b3); }
    h
}

pub fn hash_words(ws: &[u64]) -> u64 {
    let mut h = 0x1234567u64;
    for w in ws { let mut t = h ^ *w; h = splitmix(&mut t); }
    h
}

impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut x = seed;
        Rng { s: [splitmix(&mut x), splitmix(&mut x), splitmix(&mut x), splitmix(&mut x)] }
    }
    pub fn u64(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }
    pub fn below(&mut self, n: usize) -> usize { (self.u64() % n as u64) as usize }
    pub fn one_in(&mut self, n: usize) -> bool { self.below(n) == 0 }
    pub fn bool(&mut self) -> bool { self.u64() >> 63 == 1 }
}

/// Hostile 32-bit "single digit" operands.
pub fn gen_i32(r: &mut Rng) -> i32 {
    match r.below(8) {
        0 => r.below(9) as i32 - 4,
        1 => { // around powers of two
            let e = r.below(32);
            let d = r.below(5) as i64 - 2;
            let v = (1i64 << e) + d;
            let v = if r.bool() { -v } else { v };
            v.clamp(i32::MIN as i64, i32::MAX as i64) as i32
        }
        2 => [i32::MAX, i32::MIN, i32::MAX - 1, i32::MIN + 1, 0, -1, 1, 255][r.below(8)],
        3 => [i16::MAX as i32, i16::MIN as i32, i8::MAX as i32, i8::MIN as i32,
              32768, 65535, 65536, -65536][r.below(8)],
        4 => (r.u64() as i8) as i32,
        5 => (r.u64() as i16) as i32,
        6 => { let s = r.below(31); (r.u64() as i32) >> s }
        _ => r.u64() as i32,
    }
}

pub const WCLASSES: [&str; 10] = ["uniform", "small", "near-modulus", "digits", "runs",
    "single-bit", "words", "fraction", "low-half/high-half", "weights"];

/// A canonical residue, biased towards values that stress carries.
pub fn gen_w<F: Fld>(r: &mut Rng, f: &Fp) -> (W, usize) {
    let n = F::N;
    let class = r.below(WCLASSES.len());
    let mut w = Z;
    let set = |w: &mut W, pos: usize, width: usize, v: u64| {
        for i in 0..width {
            if pos + i < n && (v >> i) & 1 == 1 { w[(pos + i) / 64] |= 1 << ((pos + i) % 64); }
        }
    };
    match class {
        0 => { for i in 0..L { w[i] = r.u64(); } }
        1 => { w = w_u64(if r.bool() { r.below(40) as u64 } else { r.u64() >> r.below(64) }); }
        2 => { w = w_sub(&f.p, &w_u64(1 + if r.bool() { r.below(400) as u64 } else { r.u64() >> (1 + r.below(63)) })); }
        3 | 6 => {
            // per digit / per word extreme patterns; a class sticks for a while
            let width = if class == 3 { F::DIGIT } else { F::WORD };
            let max = (1u64 << width) - 1;
            let mut kind = r.below(9);
            let mut pos = 0;
            while pos < n {
                if r.one_in(2) { kind = r.below(9); }
                let v = match kind {
                    0 => 0, 1 => max, 2 => 1, 3 => max - 1, 4 => 1 << (width - 1),
                    5 => (1 << (width - 1)) - 1, 6 => r.u64() & max, 7 => 0x5555555555555555 & max,
                    _ => (max - (r.u64() & 0xff)) & max,
                };
                set(&mut w, pos, width, v);
                pos += width;
            }
        }
        4 => {
            let mut bit = r.bool();
            let mut pos = 0;
            while pos < n {
                let span = [4, 30, 60, 200][r.below(4)];
                let len = 1 + r.below(span);
                if bit { for i in pos..(pos + len).min(n) { w[i / 64] |= 1 << (i % 64); } }
                bit = !bit;
                pos += len;
            }
        }
        5 => {
            let b = w_pow2(r.below(n));
            let d = w_u64(r.below(200) as u64);
            w = if r.bool() { f.add(&f.red(&b), &d) } else { f.sub(&f.red(&b), &d) };
        }
        7 => {
            // k * 2^-s : values whose small multiples / doublings wrap
            let s = 1 + r.below(n - 1);
            let half = w_shr(&w_add(&f.p, &w_u64(1)), 1);
            let mut x = w_u64(1 + r.below(300) as u64);
            if r.bool() { x = f.neg(&x); }
            for _ in 0..s.min(40) { x = f.mul(&x, &half); }
            w = x;
        }
        8 => {
            let cut = 1 + r.below(n - 1);
            let hi = r.bool();
            for i in 0..n {
                if (i >= cut) == hi && r.bool() { w[i / 64] |= 1 << (i % 64); }
            }
        }
        _ => {
            // a few random bits set or cleared
            let inv = r.bool();
            if inv { w = f.p; }
            for _ in 0..1 + r.below(6) { let b = r.below(n); w[b / 64] ^= 1 << (b % 64); }
        }
    }
    (f.red(&w), class)
}

/// A residue that agrees with w except in one word (or in one word only).
pub fn sibling<F: Fld>(r: &mut Rng, f: &Fp, w: &W) -> W {
    let width = [F::WORD, F::WORD, F::DIGIT, 64, 32, 8][r.below(6)];
    let k = r.below((F::N + width - 1) / width);
    let only = r.one_in(4);
    let mut x = *w;
    for i in 0..F::N {
        if ((i / width) == k) != only && r.bool() { x[i / 64] ^= 1 << (i % 64); }
    }
    f.red(&x)
}

pub fn from_w<F: Fld>(w: &W) -> F { F::unpacked(&w_to_le(w, F::NB)) }

/// A shadowed value: `v` is held by the code under test, `r` is its residue.
#[derive(Clone, Copy)]
pub struct Sv<F> { pub v: F, pub r: W }

pub fn base<F: Fld>(r: &mut Rng, f: &Fp) -> Sv<F> {
    if r.one_in(24) {
        return match r.below(6) {
            0 => Sv { v: F::zero(), r: Z },
            1 => Sv { v: F::one(), r: w_u64(1) },
            2 => Sv { v: F::m_one(), r: f.neg(&w_u64(1)) },
            3 => Sv { v: F::modulus(), r: Z },
            4 => Sv { v: F::c_zero(), r: Z },
            _ => Sv { v: F::c_m_one(), r: f.neg(&w_u64(1)) },
        };
    }
    let (w, _) = gen_w::<F>(r, f);
    Sv { v: from_w(&w), r: w }
}

/// A small residue (or the negative of one) held close to a multiple of 2^n: the
/// operations on such values leave the largest carries and borrows there are.
pub fn edge<F: Fld>(r: &mut Rng, f: &Fp) -> Sv<F> {
    let one = |r: &mut Rng| {
        let k = 1 + r.below(F::C as usize) as i32;
        match r.below(5) {
            // above the modulus
            0 | 1 => Sv { v: F::m_one().small_add(k), r: f.small(k as i64 - 1) },
            2 => Sv { v: F::modulus(), r: Z },
            3 => Sv { v: F::zero().small_add(k - 1), r: f.small(k as i64 - 1) },
            _ => Sv { v: F::m_one().small_sub(k - 1), r: f.small(-(k as i64)) },
        }
    };
    let mut s = one(r);
    for _ in 0..1 + r.below(5) {
        match r.below(6) {
            0 | 1 => { s.v = s.v + s.v; s.r = f.add(&s.r, &s.r); }
            2 => { let t = one(r); s.v = t.v - s.v; s.r = f.sub(&t.r, &s.r); }
            3 => { let t = one(r); s.v -= t.v; s.r = f.sub(&s.r, &t.r); }
            4 => { let t = one(r); let d = t.v + t.v; s.v -= d; s.r = f.sub(&s.r, &f.add(&t.r, &t.r)); }
            _ => { let t = one(r); let d = t.v + t.v; s.v += d; s.r = f.add(&s.r, &f.add(&t.r, &t.r)); }
        }
    }
    s
}

/// The bits of a hostile residue together with a carry or borrow of one.
pub fn carried<F: Fld>(r: &mut Rng, f: &Fp) -> Sv<F> {
    let (d, _) = gen_w::<F>(r, f);
    let top = w_pow2(F::N);
    if r.bool() {
        let s = w_add(&top, &d);
        let x = w_shr(&s, 1);
        let y = w_sub(&s, &x);
        if w_cmp(&y, &f.p) == std::cmp::Ordering::Less { return Sv { v: from_w::<F>(&x) + from_w::<F>(&y), r: f.red(&s) }; }
    } else {
        let x = w_shr(&d, 1);
        let y = w_sub(&top, &w_sub(&d, &x));
        if w_cmp(&y, &f.p) == std::cmp::Ordering::Less { return Sv { v: from_w::<F>(&x) - from_w::<F>(&y), r: f.sub(&x, &y) }; }
    }
    Sv { v: from_w(&d), r: d }
}

/// The residue w as a multiple by a single digit, whose high part is folded back.
pub fn scaled<F: Fld>(r: &mut Rng, f: &Fp, w: &W) -> Sv<F> {
    let k = match gen_i32(r) { 0 => i32::MAX, k => k };
    let u = f.div_i32(w, k);
    Sv { v: from_w::<F>(&u).small_mul(k), r: *w }
}

pub const SHAPES: [&str; 16] = ["canonical", "sum", "sum-with-high", "difference", "zero-minus",
    "small-add", "small-sub", "small-mul", "product", "above-modulus", "minus-above-modulus",
    "negated", "scaled", "edge", "carried", "chain"];

/// A shadowed value in a randomly chosen representation.
pub fn gen_sv<F: Fld>(r: &mut Rng, f: &Fp) -> (Sv<F>, usize) {
    let shape = r.below(SHAPES.len());
    let a = base::<F>(r, f);
    let s = match shape {
        0 => a,
        1 => { let b = base::<F>(r, f); Sv { v: a.v + b.v, r: f.add(&a.r, &b.r) } }
        2 => {
            // a = (a - t) + t with t close to the modulus: carries out of the top
            let t = w_sub(&f.p, &w_u64(1 + r.below(300) as u64));
            let d = f.sub(&a.r, &t);
            Sv { v: from_w::<F>(&d) + from_w::<F>(&t), r: a.r }
        }
        3 => { let b = base::<F>(r, f); Sv { v: a.v - b.v, r: f.sub(&a.r, &b.r) } }
        4 => Sv { v: F::zero() - a.v, r: f.neg(&a.r) },
        5 => { let i = gen_i32(r); Sv { v: a.v.small_add(i), r: f.add(&a.r, &f.small(i as i64)) } }
        6 => { let i = gen_i32(r); Sv { v: a.v.small_sub(i), r: f.sub(&a.r, &f.small(i as i64)) } }
        7 => { let i = gen_i32(r); Sv { v: a.v.small_mul(i), r: f.mul(&a.r, &f.small(i as i64)) } }
        8 => { let b = base::<F>(r, f); Sv { v: a.v * b.v, r: f.mul(&a.r, &b.r) } }
        9 | 10 => {
            // the representable values in [p, 2^n): residue k-1 held as p+k-1,
            // and their negations
            let k = 1 + r.below(F::C as usize) as i32;
            let v = F::m_one().small_add(k);
            let s = Sv { v, r: f.small(k as i64 - 1) };
            if shape == 9 { s } else { Sv { v: F::zero() - s.v, r: f.neg(&s.r) } }
        }
        11 => Sv { v: -a.v, r: f.neg(&a.r) },
        12 => {
            let s = scaled::<F>(r, f, &a.r);
            match r.below(4) { 0 => Sv { v: -s.v, r: f.neg(&s.r) }, 1 => Sv { v: F::zero() - s.v, r: f.neg(&s.r) }, _ => s }
        }
        13 => edge::<F>(r, f),
        14 => carried::<F>(r, f),
        _ => {
            let mut s = a;
            for _ in 0..2 + r.below(5) {
                match r.below(6) {
                    0 => { let b = base::<F>(r, f); s.v += b.v; s.r = f.add(&s.r, &b.r); }
                    1 => { let b = base::<F>(r, f); s.v -= b.v; s.r = f.sub(&s.r, &b.r); }
                    2 => { s.v = s.v + s.v; s.r = f.add(&s.r, &s.r); }
                    3 => { s.v = F::zero() - s.v; s.r = f.neg(&s.r); }
                    4 => { let i = gen_i32(r); s.v = s.v.small_mul(i); s.r = f.mul(&s.r, &f.small(i as i64)); }
                    _ => { let i = gen_i32(r); s.v = s.v.small_sub(i); s.r = f.sub(&s.r, &f.small(i as i64)); }
                }
            }
            s
        }
    };
    (s, shape)
}

/// The residue the value is observed to hold through the public packing call.
pub fn obs<F: Fld>(v: &F) -> W {
    let mut c = *v;
    let mut b = [0u8; 80];
    c.pack(&mut b[..F::NB]);
    w_from_le(&b[..F::NB])
}
