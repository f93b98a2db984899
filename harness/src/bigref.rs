//! Reference arithmetic modulo p = 2^n - c, independent of the code under test.
//! Plain 64-bit limbs, schoolbook product, generic folding.  Cross-checked on
//! every run against Python integers (see `oracle_dump` and oracle_check.py).

pub const L: usize = 9;
pub type W = [u64; L];

#[derive(Clone, Debug)]
pub struct Fp {
    pub name: &'static str,
    pub n: usize,
    pub c: u64,
    pub p: W,
    pub k: usize, // 64-bit limbs in use
}

pub const Z: W = [0; L];

pub fn w_u64(x: u64) -> W { let mut r = Z; r[0] = x; r }

pub fn w_is_zero(a: &W) -> bool { a.iter().all(|x| *x == 0) }

pub fn w_cmp(a: &W, b: &W) -> std::cmp::Ordering {
    for i in (0..L).rev() {
        if a[i] != b[i] { return a[i].cmp(&b[i]); }
    }
    std::cmp::Ordering::Equal
}

pub fn w_add(a: &W, b: &W) -> W {
    let mut r = Z;
    let mut c = 0u128;
    for i in 0..L {
        let t = a[i] as u128 + b[i] as u128 + c;
        r[i] = t as u64;
        c = t >> 64;
    }
    r
}

/// a - b, a >= b.
pub fn w_sub(a: &W, b: &W) -> W {
    let mut r = Z;
    let mut br = 0i128;
    for i in 0..L {
        let mut t = a[i] as i128 - b[i] as i128 - br;
        if t < 0 { t += 1i128 << 64; br = 1 } else { br = 0 }
        r[i] = t as u64;
    }
    r
}

pub fn w_bit(a: &W, i: usize) -> bool { i < 64 * L && (a[i / 64] >> (i % 64)) & 1 == 1 }

pub fn w_pow2(i: usize) -> W { let mut r = Z; r[i / 64] = 1 << (i % 64); r }

pub fn w_shr(a: &W, s: usize) -> W {
    let mut r = Z;
    let (q, m) = (s / 64, s % 64);
    for i in 0..L {
        if i + q < L {
            r[i] = a[i + q] >> m;
            if m > 0 && i + q + 1 < L { r[i] |= a[i + q + 1] << (64 - m); }
        }
    }
    r
}

pub fn w_bits(a: &W) -> usize {
    for i in (0..L).rev() {
        if a[i] != 0 { return i * 64 + 64 - a[i].leading_zeros() as usize; }
    }
    0
}

pub fn w_hex(a: &W) -> String {
    let mut s = String::new();
    for i in (0..L).rev() { s.push_str(&format!("{:016x}", a[i])); }
    let t = s.trim_start_matches('0');
    if t.is_empty() { "0".into() } else { t.into() }
}

pub fn w_from_hex(s: &str) -> W {
    let mut r = Z;
    for ch in s.trim_start_matches("0x").chars() {
        let d = ch.to_digit(16).unwrap() as u64;
        for i in (1..L).rev() { r[i] = (r[i] << 4) | (r[i - 1] >> 60); }
        r[0] = (r[0] << 4) | d;
    }
    r
}

pub fn w_from_le(b: &[u8]) -> W {
    let mut r = Z;
    for (i, x) in b.iter().enumerate() {
        if i / 8 < L { r[i / 8] |= (*x as u64) << (8 * (i % 8)); } else { assert!(*x == 0) }
    }
    r
}

pub fn w_to_le(a: &W, nb: usize) -> Vec<u8> {
    (0..nb).map(|i| if i / 8 < L { (a[i / 8] >> (8 * (i % 8))) as u8 } else { 0 }).collect()
}

impl Fp {
    pub fn new(name: &'static str, n: usize, c: u64) -> Fp {
        let p = w_sub(&w_pow2(n), &w_u64(c));
        Fp { name, n, c, p, k: (n + 63) / 64 }
    }

    /// Any value below 2^576 to its canonical residue.
    pub fn red(&self, a: &W) -> W {
        let mut x = [0u64; 2 * L];
        x[..L].copy_from_slice(a);
        self.fold(&x)
    }

    fn fold(&self, a: &[u64; 2 * L]) -> W {
        let (q, m) = (self.n / 64, self.n % 64);
        let mut x = *a;
        loop {
            // hi = x >> n
            let mut hi = [0u64; 2 * L];
            let mut nz = false;
            for i in 0..2 * L - q {
                hi[i] = x[i + q] >> m;
                if m > 0 && i + q + 1 < 2 * L { hi[i] |= x[i + q + 1] << (64 - m); }
                nz |= hi[i] != 0;
            }
            if !nz { break; }
            for i in q..2 * L { x[i] = if i == q && m > 0 { x[i] & ((1u64 << m) - 1) } else { 0 }; }
            let mut carry = 0u128;
            for i in 0..2 * L {
                let t = x[i] as u128 + hi[i] as u128 * self.c as u128 + carry;
                x[i] = t as u64;
                carry = t >> 64;
            }
            assert!(carry == 0);
        }
        let mut r = Z;
        r.copy_from_slice(&x[..L]);
        while w_cmp(&r, &self.p) != std::cmp::Ordering::Less { r = w_sub(&r, &self.p); }
        r
    }

    pub fn add(&self, a: &W, b: &W) -> W {
        let r = w_add(a, b);
        if w_cmp(&r, &self.p) != std::cmp::Ordering::Less { w_sub(&r, &self.p) } else { r }
    }

    pub fn neg(&self, a: &W) -> W { if w_is_zero(a) { Z } else { w_sub(&self.p, a) } }

    pub fn sub(&self, a: &W, b: &W) -> W { self.add(a, &self.neg(b)) }

    pub fn mul(&self, a: &W, b: &W) -> W {
        let mut x = [0u64; 2 * L];
        for i in 0..self.k {
            let mut c = 0u128;
            for j in 0..self.k {
                let t = x[i + j] as u128 + a[i] as u128 * b[j] as u128 + c;
                x[i + j] = t as u64;
                c = t >> 64;
            }
            x[i + self.k] = c as u64;
        }
        self.fold(&x)
    }

    pub fn sq(&self, a: &W) -> W { self.mul(a, a) }

    pub fn small(&self, i: i64) -> W {
        let m = self.red(&w_u64(i.unsigned_abs()));
        if i < 0 { self.neg(&m) } else { m }
    }

    pub fn pow(&self, a: &W, e: &W) -> W {
        let mut r = w_u64(1);
        for i in (0..w_bits(e)).rev() {
            r = self.sq(&r);
            if w_bit(e, i) { r = self.mul(&r, a); }
        }
        r
    }

    pub fn inv(&self, a: &W) -> W { self.pow(a, &w_sub(&self.p, &w_u64(2))) }

    /// a / k for a single digit k != 0: the u with u * k = a + t * p.
    pub fn div_i32(&self, a: &W, k: i32) -> W {
        let m = k.unsigned_abs() as u128;
        let rem = |x: &W| (0..L).rev().fold(0u128, |c, i| ((c << 64) | x[i] as u128) % m);
        // inverse of p modulo m
        let (mut r0, mut r1, mut s0, mut s1) = (m as i128, rem(&self.p) as i128, 0i128, 1i128);
        while r1 > 0 {
            let q = r0 / r1;
            (r0, r1, s0, s1) = (r1, r0 - q * r1, s1, s0 - q * s1);
        }
        let t = (m - rem(a)) % m * s0.rem_euclid(m as i128) as u128 % m;
        let mut x = *a;
        let mut c = 0u128;
        for i in 0..L {
            let v = x[i] as u128 + self.p[i] as u128 * t + c;
            x[i] = v as u64;
            c = v >> 64;
        }
        assert!(c == 0);
        let mut c = 0u128;
        for i in (0..L).rev() {
            let v = (c << 64) | x[i] as u128;
            x[i] = (v / m) as u64;
            c = v % m;
        }
        assert!(c == 0);
        if k < 0 { self.neg(&x) } else { x }
    }

    /// 0, 1 or -1 by Euler's criterion.
    pub fn legendre(&self, a: &W) -> i32 {
        if w_is_zero(a) { return 0; }
        let r = self.pow(a, &w_shr(&self.p, 1));
        if r == w_u64(1) { 1 } else { assert!(r == self.neg(&w_u64(1))); -1 }
    }

    /// A square root, if there is one.
    pub fn sqrt(&self, a: &W) -> Option<W> {
        let r = if self.p[0] & 3 == 3 {
            self.pow(a, &w_shr(&w_add(&self.p, &w_u64(1)), 2))
        } else {
            assert!(self.p[0] & 7 == 5);
            let a2 = self.add(a, a);
            let v = self.pow(&a2, &w_shr(&self.p, 3)); // (p-5)/8
            let i = self.mul(&a2, &self.sq(&v));
            self.mul(&self.mul(a, &v), &self.sub(&i, &w_u64(1)))
        };
        if self.sq(&r) == *a { Some(r) } else { None }
    }
}

/// Reference Edwards arithmetic x^2 + y^2 = 1 + d x^2 y^2 in plain projective
/// coordinates (X:Y:Z), complete for non-square d.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct RPt { pub x: W, pub y: W, pub z: W }

pub struct RCurve<'a> { pub f: &'a Fp, pub d: W }

impl<'a> RCurve<'a> {
    pub fn id(&self) -> RPt { RPt { x: Z, y: w_u64(1), z: w_u64(1) } }
    pub fn aff(&self, x: &W, y: &W) -> RPt { RPt { x: *x, y: *y, z: w_u64(1) } }
    pub fn neg(&self, p: &RPt) -> RPt { RPt { x: self.f.neg(&p.x), y: p.y, z: p.z } }
    pub fn add(&self, p: &RPt, q: &RPt) -> RPt {
        let f = self.f;
        let a = f.mul(&p.z, &q.z);
        let b = f.sq(&a);
        let c = f.mul(&p.x, &q.x);
        let d = f.mul(&p.y, &q.y);
        let e = f.mul(&self.d, &f.mul(&c, &d));
        let ff = f.sub(&b, &e);
        let g = f.add(&b, &e);
        let cross = f.add(&f.mul(&p.x, &q.y), &f.mul(&p.y, &q.x));
        RPt {
            x: f.mul(&f.mul(&a, &ff), &cross),
            y: f.mul(&f.mul(&a, &g), &f.sub(&d, &c)),
            z: f.mul(&ff, &g),
        }
    }
    pub fn mulk(&self, k: &W, p: &RPt) -> RPt {
        let mut r = self.id();
        for i in (0..w_bits(k)).rev() {
            r = self.add(&r, &r);
            if w_bit(k, i) { r = self.add(&r, p); }
        }
        r
    }
    pub fn eq(&self, p: &RPt, q: &RPt) -> bool {
        let f = self.f;
        !w_is_zero(&p.z) && !w_is_zero(&q.z)
            && f.mul(&p.x, &q.z) == f.mul(&q.x, &p.z)
            && f.mul(&p.y, &q.z) == f.mul(&q.y, &p.z)
    }
    pub fn is_id(&self, p: &RPt) -> bool { self.eq(p, &self.id()) }
    pub fn on_curve(&self, p: &RPt) -> bool {
        let f = self.f;
        let (x2, y2, z2) = (f.sq(&p.x), f.sq(&p.y), f.sq(&p.z));
        let l = f.mul(&f.add(&x2, &y2), &z2);
        let r = f.add(&f.sq(&z2), &f.mul(&self.d, &f.mul(&x2, &y2)));
        !w_is_zero(&p.z) && l == r
    }
    /// Lift y to a point, if possible.
    pub fn lift_y(&self, y: &W, neg: bool) -> Option<(W, W)> {
        let f = self.f;
        let y2 = f.sq(y);
        let num = f.sub(&w_u64(1), &y2);
        let den = f.sub(&w_u64(1), &f.mul(&self.d, &y2));
        if w_is_zero(&den) { return None; }
        let x2 = f.mul(&num, &f.inv(&den));
        let x = f.sqrt(&x2)?;
        Some((if neg { f.neg(&x) } else { x }, *y))
    }
}
