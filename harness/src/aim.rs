//! Aimed factors: operands whose *unreduced* product (or square, or the top half
//! of it times c) has chosen words all zero or all ones, so that a carry into
//! such a word decides what leaves it.  Uniform operands do that with
//! probability 2^-50 per word.  Only shapes the workload: no verdict depends on
//! these computations being right (though they are checked in `aim_ok`).
use crate::bigref::*;
use crate::fields::Fld;
use crate::gen::*;

pub const M: usize = 2 * L + 1;
pub type Wide = [u64; M];

fn bits(a: &Wide) -> usize {
    for i in (0..M).rev() { if a[i] != 0 { return i * 64 + 64 - a[i].leading_zeros() as usize; } }
    0
}
fn bit(a: &Wide, i: usize) -> bool { i < 64 * M && (a[i / 64] >> (i % 64)) & 1 == 1 }
fn set(a: &mut Wide, i: usize, v: bool) {
    if i < 64 * M { if v { a[i / 64] |= 1 << (i % 64) } else { a[i / 64] &= !(1 << (i % 64)) } }
}
fn trunc(a: &mut Wide, n: usize) {
    for i in 0..M {
        if 64 * i >= n { a[i] = 0 } else if 64 * i + 64 > n { a[i] &= (1u64 << (n - 64 * i)) - 1 }
    }
}
fn ge(a: &Wide, b: &Wide) -> bool {
    for i in (0..M).rev() { if a[i] != b[i] { return a[i] > b[i]; } }
    true
}
fn sub(a: &mut Wide, b: &Wide) {
    let mut br = false;
    for i in 0..M {
        let (x, c1) = a[i].overflowing_sub(b[i]);
        let (y, c2) = x.overflowing_sub(br as u64);
        a[i] = y;
        br = c1 || c2;
    }
}
fn inc(a: &mut Wide) { for i in 0..M { a[i] = a[i].wrapping_add(1); if a[i] != 0 { break; } } }
fn shl1(a: &mut Wide) { for i in (1..M).rev() { a[i] = (a[i] << 1) | (a[i - 1] >> 63); } a[0] <<= 1; }
fn shr(a: &Wide, s: usize) -> Wide {
    let mut r = [0; M];
    for i in 0..M {
        let q = i + s / 64;
        if q < M { r[i] = a[q] >> (s % 64); }
        if s % 64 > 0 && q + 1 < M { r[i] |= a[q + 1] << (64 - s % 64); }
    }
    r
}
fn mul(a: &Wide, b: &Wide) -> Wide {
    let mut r = [0; M];
    for i in 0..M {
        if a[i] == 0 { continue; }
        let mut c = 0u128;
        for j in 0..M - i {
            let t = a[i] as u128 * b[j] as u128 + r[i + j] as u128 + c;
            r[i + j] = t as u64;
            c = t >> 64;
        }
    }
    r
}
/// ceil(a / b) by long division.
fn div_ceil(a: &Wide, b: &Wide) -> Wide {
    let mut q = [0; M];
    let mut rem = [0; M];
    for i in (0..bits(a)).rev() {
        shl1(&mut rem);
        rem[0] |= bit(a, i) as u64;
        if ge(&rem, b) { sub(&mut rem, b); set(&mut q, i, true); }
    }
    if rem != [0; M] { inc(&mut q); }
    q
}
/// ceil(sqrt(a)), bit by bit.
fn sqrt_ceil(a: &Wide) -> Wide {
    let mut x = [0; M];
    for i in (0..(bits(a) + 1) / 2 + 1).rev() {
        let mut y = x;
        set(&mut y, i, true);
        if ge(a, &mul(&y, &y)) { x = y; }
    }
    if mul(&x, &x) != *a { inc(&mut x); }
    x
}
/// inverse of odd a mod 2^n
fn inv2(a: &Wide, n: usize) -> Wide {
    let mut x = [0; M];
    x[0] = 1;
    let mut k = 1;
    while k < n {
        k *= 2;
        // x = x (2 - a x)
        let mut t = mul(a, &x);
        trunc(&mut t, k.min(n));
        let mut two = [0; M];
        two[0] = 2;
        let mut u = two;
        sub(&mut u, &t);
        x = mul(&x, &u);
        trunc(&mut x, k.min(n));
    }
    x
}
/// x with x*x = t mod 2^n, t = 1 mod 8
fn sqrt2(t: &Wide, n: usize) -> Wide {
    let mut x = [0; M];
    x[0] = 1;
    for k in 3..n {
        let s = mul(&x, &x);
        if bit(&s, k) != bit(t, k) { set(&mut x, k - 1, true); }
    }
    x
}
fn rnd(r: &mut Rng, n: usize) -> Wide {
    let mut a = [0; M];
    for x in a.iter_mut() { *x = r.u64(); }
    trunc(&mut a, n);
    a
}
/// Some consecutive words of t (those of `width` bits from bit `lo`) become all
/// zeros or all ones, up to a few units.
fn pattern(r: &mut Rng, t: &mut Wide, lo: usize, width: usize, words: usize) {
    let ones = r.bool();
    for k in 0..words {
        let small = if k > 0 && r.bool() { 0 } else { let s = r.below(9); r.below(1 + (1 << s)) as u64 };
        for i in 0..width {
            let v = i < 64 && (small >> i) & 1 == 1;
            set(t, lo + k * width + i, v != ones);
        }
    }
}
fn low(a: &Wide) -> W { let mut w = Z; w.copy_from_slice(&a[..L]); w }
fn fits(a: &Wide, f: &Fp) -> bool { a[L..].iter().all(|x| *x == 0) && w_cmp(&low(a), &f.p) == std::cmp::Ordering::Less }

pub const AIMS: [&str; 6] = ["aimed: high words of the product", "aimed: low words of the product",
    "aimed: words of c times the high half", "aimed: high words of the square",
    "aimed: low words of the square", "aimed: words of c times the high half of the square"];

/// Two canonical residues (equal for squares) and the kind of aim.
pub fn aimed<F: Fld>(r: &mut Rng, f: &Fp, square: bool) -> Option<(W, W, usize)> {
    let n = F::N;
    let width = match r.below(8) { 0 => F::DIGIT, 1 => 8 + r.below(50), _ => F::WORD };
    let words = 1 + (r.below(4) == 0) as usize + (r.below(8) == 0) as usize;
    let kind = r.below(3);
    let mut one = [0; M];
    one[0] = 1;
    // a position for the pattern among `total` bits, on a word boundary mostly
    let place = |r: &mut Rng, from: usize, to: usize| -> Option<usize> {
        let lo = if r.one_in(8) { from + r.below(to.max(from + 1) - from) } else {
            let k0 = (from + width - 1) / width;
            let k1 = to / width;
            if k1 <= k0 { return None; }
            (k0 + r.below(k1 - k0)) * width
        };
        Some(lo)
    };
    match kind {
        0 | 2 => {
            let abits;
            let mut t;
            if kind == 0 {
                let lo = place(r, if square { n } else { width.min(n - 8) }, 2 * n - 6)?;
                // the product is only steered above the length of a
                abits = if square { n } else { let m = lo.min(n); let k = m / 2 + 1; if r.bool() { m } else { m - r.below(k) } }.max(2);
                let cut = r.below(3);
                t = rnd(r, abits + n - 1 - cut);
                pattern(r, &mut t, lo, width, words);
                trunc(&mut t, abits + n - 1);
            } else {
                abits = n;
                let cb = 64 - F::C.leading_zeros() as usize;
                let cut = r.below(3);
                let mut x = rnd(r, n + cb - 1 - cut);
                let lo = place(r, 0, n)?;
                pattern(r, &mut x, lo, width, words);
                trunc(&mut x, n + cb - 1);
                let mut c = [0; M];
                c[0] = F::C;
                let h = div_ceil(&x, &c);
                t = rnd(r, 2 * n);
                for i in 0..n { set(&mut t, n + i, bit(&h, i)); }
                trunc(&mut t, 2 * n - 1);
            }
            if square {
                let a = sqrt_ceil(&t);
                if !fits(&a, f) { return None; }
                Some((low(&a), low(&a), 3 + kind))
            } else {
                let mut a = rnd(r, abits);
                set(&mut a, abits - 1, true);
                let b = div_ceil(&t, &a);
                if !fits(&a, f) || !fits(&b, f) { return None; }
                if r.bool() { Some((low(&a), low(&b), kind)) } else { Some((low(&b), low(&a), kind)) }
            }
        }
        _ => {
            let lo = place(r, width.min(3), n)?;
            let mut t = rnd(r, n);
            pattern(r, &mut t, lo, width, words);
            trunc(&mut t, n);
            if square {
                t[0] = (t[0] & !7) | 1;
                let mut a = sqrt2(&t, n);
                if r.bool() { // the other root
                    let mut z = [0; M];
                    sub(&mut z, &a);
                    trunc(&mut z, n);
                    a = z;
                }
                if !fits(&a, f) { return None; }
                Some((low(&a), low(&a), 4))
            } else {
                let mut a = rnd(r, n);
                a[0] |= 1;
                let b = { let mut b = mul(&t, &inv2(&a, n)); trunc(&mut b, n); b };
                if !fits(&a, f) || !fits(&b, f) { return None; }
                Some((low(&a), low(&b), 1))
            }
        }
    }
}

/// Longest run of equal bits that covers a whole word of the product: what was aimed for.
pub fn aim_ok<F: Fld>(a: &W, b: &W, kind: usize) -> bool {
    let (mut x, mut y) = ([0; M], [0; M]);
    x[..L].copy_from_slice(a);
    y[..L].copy_from_slice(b);
    let mut t = mul(&x, &y);
    if kind % 3 == 2 {
        let mut c = [0; M];
        c[0] = F::C;
        t = mul(&shr(&t, F::N), &c);
    }
    let (mut run, mut best) = (1, 1);
    let end = if kind % 3 == 1 { F::N } else { bits(&t) };
    for i in 1..end {
        if bit(&t, i) == bit(&t, i - 1) { run += 1; best = best.max(run); } else { run = 1; }
    }
    best >= 20
}
