//! C08: the curve code over prime fields supplied by a user.  The field here
//! is small enough that whole curves are driven: every point, every pair,
//! every scalar, in adversarially chosen lazily-normalised representations,
//! and it monitors the calls made on it against the documented contract.
//!
//!   vpmock run --tier T --seed S --out F
use rand::{Rand, Rng as RRng};
use safecurves_rust::curve::edwards::{EdwardsCurve, EdwardsExtended};
use safecurves_rust::curve::point::Point;
use safecurves_rust::field::prime_field::PrimeField;
use safecurves_rust::normalize::{Normalize, NormalizeEq};
use safecurves_rust::pack::Pack;
use std::cell::{Cell, RefCell};
use std::collections::HashSet;
use std::ops::*;
use std::panic::{catch_unwind, AssertUnwindSafe};

thread_local! {
    static P: Cell<i64> = Cell::new(7);
    static NB: Cell<usize> = Cell::new(3);
    static D: Cell<i64> = Cell::new(3);
    static RNG: Cell<u64> = Cell::new(1);
    static LAZY: Cell<bool> = Cell::new(true);
    static TRACE: Cell<u64> = Cell::new(0);
    static OPS: Cell<u64> = Cell::new(0);
    static PROTO: RefCell<Option<String>> = RefCell::new(None);
}
fn p() -> i64 { P.with(|x| x.get()) }
fn rnd() -> u64 {
    RNG.with(|c| {
        let x = c.get().wrapping_add(0x9E3779B97F4A7C15);
        c.set(x);
        let mut z = x;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    })
}
fn op(k: u64) {
    OPS.with(|o| o.set(o.get() + 1));
    TRACE.with(|t| t.set((t.get() ^ k).wrapping_mul(0x100000001b3).rotate_left(5)));
}
fn breach(s: &str) { PROTO.with(|x| { let mut x = x.borrow_mut(); if x.is_none() { *x = Some(s.into()) } }) }

/// An element; any representative of its class may be stored.
#[derive(Clone, Copy, Debug)]
pub struct M(i64);
fn red(v: i64) -> i64 { v.rem_euclid(p()) }
/// Product of two residues (or of a residue and a machine integer).
fn mulm(a: i64, b: i64) -> i64 {
    let q = p();
    if q < 1 << 31 { (a * red(b)) % q } else { (a as i128 * b as i128).rem_euclid(q as i128) as i64 }
}
/// Bit i of a normalised value; zero above it.
fn bit_of(v: i64, i: usize) -> bool { i < 63 && (v >> i) & 1 == 1 }
fn lazy(v: i64) -> M {
    let r = red(v);
    if LAZY.with(|l| l.get()) { M(r + p() * ((rnd() % 9) as i64 - 4)) } else { M(r) }
}
/// All bits set: the mask of `filled(true)`.
const ONES: i64 = -1;

macro_rules! ops {
    ($($tr:ident $f:ident $tra:ident $fa:ident $k:expr, $e:expr;)*) => {$(
        impl $tr<M> for M { type Output = M; fn $f(self, b: M) -> M { op($k); lazy($e(red(self.0), red(b.0))) } }
        impl $tra<M> for M { fn $fa(&mut self, b: M) { op($k + 100); *self = lazy($e(red(self.0), red(b.0))) } }
        ops!(@small $tr $f $tra $fa $k, $e, i32 i16 i8);
    )*};
    (@small $tr:ident $f:ident $tra:ident $fa:ident $k:expr, $e:expr, $($t:ty)*) => {$(
        impl $tr<$t> for M { type Output = M; fn $f(self, b: $t) -> M { op($k + 200); lazy($e(red(self.0), red(b as i64))) } }
        impl $tra<$t> for M { fn $fa(&mut self, b: $t) { op($k + 300); *self = lazy($e(red(self.0), red(b as i64))) } }
    )*};
}
fn inv(a: i64) -> i64 {
    let (mut e, mut b, mut r) = (p() - 2, red(a), 1);
    while e > 0 { if e & 1 == 1 { r = mulm(r, b) } b = mulm(b, b); e >>= 1; }
    r
}
ops! {
    Add add AddAssign add_assign 1, |a: i64, b: i64| a + b;
    Sub sub SubAssign sub_assign 2, |a: i64, b: i64| a - b;
    Mul mul MulAssign mul_assign 3, mulm;
}
impl Div<M> for M { type Output = M; fn div(self, b: M) -> M { op(4); lazy(mulm(red(self.0), inv(b.0))) } }
impl DivAssign<M> for M { fn div_assign(&mut self, b: M) { op(5); *self = lazy(mulm(red(self.0), inv(b.0))) } }
impl Neg for M { type Output = M; fn neg(self) -> M { op(6); lazy(-red(self.0)) } }
impl Normalize for M { fn normalize(&mut self) { op(7); self.0 = red(self.0) } }
impl NormalizeEq for M {
    fn normalize_self_eq(&mut self, o: &M) -> bool { op(8); self.0 = red(self.0); if o.0 != red(o.0) { breach("normalize_self_eq on an operand that is not normalised") } self.0 == o.0 }
    fn normalize_eq(&mut self, o: &mut M) -> bool { op(9); self.0 = red(self.0); o.0 = red(o.0); self.0 == o.0 }
}
impl Pack for M {
    fn unpack(&mut self, b: &[u8]) { op(10); *self = Self::unpacked(b) }
    fn unpacked(b: &[u8]) -> M { op(11); M((0..8).map(|i| (b[i] as i64) << (8 * i)).sum()) }
    fn pack(&mut self, b: &mut [u8]) { op(12); self.0 = red(self.0); b[..8].copy_from_slice(&self.0.to_le_bytes()) }
    fn pack_normalized(&self, b: &mut [u8]) {
        op(13);
        if self.0 != red(self.0) { breach("pack_normalized on a value that is not normalised") }
        b[..8].copy_from_slice(&self.0.to_le_bytes())
    }
    fn nbytes() -> i32 { ((Self::nbits() + 7) / 8).max(8) as i32 }
}
impl Rand for M { fn rand<R: RRng>(r: &mut R) -> M { M(red(r.next_u32() as i64)) } }
impl PrimeField for M {
    fn nbits() -> usize { NB.with(|n| n.get()) }
    fn bit(&mut self, i: usize) -> bool { op(20); self.0 = red(self.0); if i >= Self::nbits() { breach("bit index out of range") } bit_of(self.0, i) }
    fn bit_normalized(&self, i: usize) -> bool {
        op(21);
        if self.0 != red(self.0) { breach("bit_normalized on a value that is not normalised") }
        if i >= Self::nbits() { breach("bit index out of range") }
        bit_of(self.0, i)
    }
    fn fill(&mut self, b: bool) { op(22); self.0 = if b { ONES } else { 0 } }
    fn filled(b: bool) -> M { op(23); M(if b { ONES } else { 0 }) }
    fn normalize_bitand(&mut self, r: &mut M) { op(24); self.0 = red(self.0) & red(r.0); r.0 = red(r.0) }
    fn normalize_self_bitand(&mut self, r: &M) { op(25); self.0 = red(self.0) & r.0 }
    fn normalized_bitand(&mut self, r: &M) { op(26); self.0 &= r.0 }
    fn normalize_bitor(&mut self, r: &mut M) { op(27); self.0 = red(self.0) | red(r.0); r.0 = red(r.0) }
    fn normalize_self_bitor(&mut self, r: &M) { op(28); self.0 = red(self.0) | r.0 }
    fn normalized_bitor(&mut self, r: &M) { op(29); self.0 |= r.0 }
    fn zero() -> M { op(30); M(0) }
    fn one() -> M { op(31); M(1) }
    fn m_one() -> M { op(32); M(p() - 1) }
    fn modulus() -> M { op(33); M(p()) }
    fn square(&mut self) { op(34); *self = lazy(mulm(red(self.0), red(self.0))) }
    fn squared(&self) -> M { op(35); lazy(mulm(red(self.0), red(self.0))) }
    fn invert(&mut self) { op(36); *self = lazy(inv(self.0)) }
    fn inverted(&self) -> M { op(37); lazy(inv(self.0)) }
    fn legendre(&self) -> M { op(38); lazy(leg(red(self.0))) }
    fn sqrt(&self) -> M { op(39); let a = red(self.0); lazy(root(a)) }
    fn small_add_assign(&mut self, b: i32) { op(40); *self = lazy(red(self.0) + b as i64) }
    fn small_add(&self, b: i32) -> M { op(41); lazy(red(self.0) + b as i64) }
    fn small_sub_assign(&mut self, b: i32) { op(42); *self = lazy(red(self.0) - b as i64) }
    fn small_sub(&self, b: i32) -> M { op(43); lazy(red(self.0) - b as i64) }
    fn small_mul_assign(&mut self, b: i32) { op(44); *self = lazy(mulm(red(self.0), b as i64)) }
    fn small_mul(&self, b: i32) -> M { op(45); lazy(mulm(red(self.0), b as i64)) }
}
fn leg(a: i64) -> i64 {
    let (mut e, mut b, mut r) = ((p() - 1) / 2, red(a), 1);
    while e > 0 { if e & 1 == 1 { r = mulm(r, b) } b = mulm(b, b); e >>= 1; }
    if r == p() - 1 { -1 } else { r }
}

/// A square root, of a square: by search, or (large primes, 3 modulo 4) by power.
fn root(a: i64) -> i64 {
    if p() < 5000 { return (0..p()).find(|x| x * x % p() == a).unwrap_or(0) }
    let (mut e, mut b, mut r) = ((p() + 1) / 4, a, 1);
    while e > 0 { if e & 1 == 1 { r = mulm(r, b) } b = mulm(b, b); e >>= 1; }
    r
}

#[derive(Clone, Copy)]
pub struct Cv;
impl EdwardsCurve for Cv {
    type Scalar = M;
    fn d_val() -> M { lazy(D.with(|d| d.get())) }
}
type Pt = EdwardsExtended<Cv>;
type A = (i64, i64);

fn radd(a: A, b: A) -> A {
    let t = mulm(mulm(D.with(|d| d.get()), mulm(a.0, b.0)), mulm(a.1, b.1));
    (mulm(red(mulm(a.0, b.1) + mulm(a.1, b.0)), inv(1 + t)), mulm(red(mulm(a.1, b.1) - mulm(a.0, b.0)), inv(1 - t)))
}
fn mk(a: A) -> Pt { let mut x = Pt::zero(); x.init(lazy(a.0), lazy(a.1)); x }
fn see(x: &Pt) -> Option<A> {
    let (x, y, z) = x.vp_coords();
    let z = red(z.0);
    if z == 0 { return None }
    let i = inv(z);
    Some((mulm(red(x.0), i), mulm(red(y.0), i)))
}

/// Whether p() is (very probably) a prime: Fermat to twelve bases after trial division.
fn probable_prime() -> bool {
    let q = p();
    if (2..2000).any(|k| k < q && q % k == 0) { return false }
    [2i64, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37].iter().all(|a| {
        let (mut e, mut b, mut r) = (q - 1, *a, 1);
        while e > 0 { if e & 1 == 1 { r = mulm(r, b) } b = mulm(b, b); e >>= 1; }
        r == 1
    })
}

#[derive(Default)]
struct St { cases: u64, checks: u64, distinct: HashSet<u64>, nontriv: HashSet<u64>, viol: Vec<String>, curves: u64, points: u64, pairs: u64, mults: u64, samples: Vec<String>, traces: u64 }
impl St {
    fn case(&mut self, h: &[i64], nt: bool) {
        self.cases += 1;
        let mut x = 7u64;
        for v in h { x = (x ^ *v as u64).wrapping_mul(0x9E3779B97F4A7C15); x ^= x >> 29; }
        if self.distinct.len() < 3_000_000 { self.distinct.insert(x); if nt { self.nontriv.insert(x); } }
    }
    fn want(&mut self, what: &str, got: &Pt, w: A, ctx: &str) -> bool {
        self.checks += 1;
        let g = see(got);
        if g == Some(w) { return true }
        if self.viol.len() < 6 {
            self.viol.push(format!("{} = {} want {:?} (p = {}, d = {}, {})", what,
                match g { Some(g) => format!("{:?}", g), None => "a degenerate point".into() }, w, p(), D.with(|d| d.get()), ctx));
        }
        false
    }
}

/// Scalars: uniform, small, next to the prime, single bits and runs.
fn scalar(q: i64) -> i64 {
    match rnd() % 8 {
        0 => (rnd() % 8) as i64 % q,
        1 => (q - 1 - (rnd() % 8) as i64).max(0),
        2 => (1i64 << (rnd() % 62)) % q,
        3 => ((1i64 << (rnd() % 62)) - 1) % q,
        _ => (rnd() % q as u64) as i64,
    }
}

/// A value in another projective representation: (P + Q) + (-Q).
fn rerep(a: A, pts: &[A]) -> Pt {
    let q = pts[(rnd() % pts.len() as u64) as usize];
    let nq = (red(-q.0), q.1);
    match rnd() % 4 { 0 => mk(a), 1 => Pt::zero() + mk(a), _ => (mk(a) + mk(q)) + mk(nq) }
}

/// Points of a curve too large to list: the small subgroup, lifts of hostile
/// and random abscissas, their negatives and sums.
fn some_points() -> Vec<A> {
    let (q, d) = (p(), D.with(|d| d.get()));
    let mut v: Vec<A> = vec![(0, 1), (0, q - 1), (1, 0), (q - 1, 0)];
    for k in 0..60 {
        let x = match k % 4 { 0 => 1 + k / 4, 1 => q - 1 - k / 4, 2 => 1i64 << (rnd() % 57), _ => red((rnd() >> 2) as i64) };
        let x = red(x);
        let xx = mulm(x, x);
        let yy = mulm(red(1 - xx), inv(red(1 - mulm(d, xx))));
        if leg(yy) == 1 {
            let y = root(yy);
            v.push((x, y));
            v.push((red(-x), red(-y)));
        }
    }
    for _ in 0..30 { let w = radd(v[(rnd() % v.len() as u64) as usize], v[(rnd() % v.len() as u64) as usize]); v.push(w); }
    v
}

fn curve(st: &mut St, prime: i64, extra: usize, d: i64, pair_cap: u64, mult_cap: u64) {
    P.with(|x| x.set(prime));
    D.with(|x| x.set(d));
    NB.with(|x| x.set(64 - (prime as u64).leading_zeros() as usize + extra));
    let pts: Vec<A> = if prime > 5000 { some_points() } else { (0..prime).flat_map(|x| (0..prime).map(move |y| (x, y)))
        .filter(|(x, y)| { let (a, b) = (x * x % prime, y * y % prime); (a + b - 1 - d * (a * b % prime)) % prime == 0 }).collect() };
    st.curves += 1;
    st.points += pts.len() as u64;
    let id = (0, 1);
    let n = pts.len() as u64;
    let all = n * n <= pair_cap;
    let npairs = if all { n * n } else { pair_cap };
    for k in 0..npairs {
        let (i, j) = if all { (k / n, k % n) } else { (rnd() % n, rnd() % n) };
        let (a, b) = (pts[i as usize], pts[j as usize]);
        st.case(&[1, prime, d, a.0, a.1, b.0, b.1], a != id && b != id);
        st.pairs += 1;
        let (pa, pb) = (rerep(a, &pts), rerep(b, &pts));
        let w = radd(a, b);
        let s = pa + pb;
        let ctx = format!("P = {:?}, Q = {:?}", a, b);
        let ok = st.want("P+Q", &s, w, &ctx) && {
            let t = pts[(rnd() % n) as usize];
            let x = if rnd() % 2 == 0 { s + mk(t) } else { mk(t) + s };
            st.want("(P+Q)+R", &x, radd(w, t), &ctx)
        } && { let mut x = pa; x += pb; st.want("P+=Q", &x, w, &ctx) };
        if !ok { return }
    }
    for a in &pts {
        let (p1, ctx) = (rerep(*a, &pts), format!("P = {:?}", a));
        st.case(&[2, prime, d, a.0, a.1], *a != id);
        let (w2, w3) = (radd(*a, *a), radd(radd(*a, *a), *a));
        let (d2, d3) = (p1.doubled(), p1.tripled());
        let (mut e2, mut e3) = (p1, p1);
        e2.double();
        e3.triple();
        let ok = st.want("P", &p1, *a, &ctx) && st.want("2P", &d2, w2, &ctx) && st.want("3P", &d3, w3, &ctx)
            && st.want("double()", &e2, w2, &ctx) && st.want("triple()", &e3, w3, &ctx)
            && st.want("2P+3P", &(d2 + d3), radd(w2, w3), &ctx) && st.want("3P+2P in place", &(e3 + e2), radd(w2, w3), &ctx)
            && st.want("2(3P)", &d3.doubled(), radd(w3, w3), &ctx) && st.want("3(2P)", &d2.tripled(), radd(w3, w3), &ctx);
        if !ok { return }
    }
    // every scalar on points of the curve
    let total = n.saturating_mul(prime as u64);
    let all = total <= mult_cap;
    let mut acc = id;
    let mut trace0 = 0;
    for k in 0..if all { total } else { mult_cap } {
        let (i, s) = if all { (k / prime as u64, (k % prime as u64) as i64) } else { (rnd() % n, scalar(prime)) };
        let a = pts[i as usize];
        if all { acc = if s == 0 { id } else { radd(acc, a) } }
        else {
            acc = id;
            for b in (0..63).rev() { acc = radd(acc, acc); if (s >> b) & 1 == 1 { acc = radd(acc, a) } }
        }
        st.case(&[3, prime, d, a.0, a.1, s], a != id && s > 1);
        st.mults += 1;
        let ctx = format!("k = {}, P = {:?}", s, a);
        let mut x = rerep(a, &pts);
        let mut kk = lazy(s);
        TRACE.with(|t| t.set(0));
        x.scalar_mult(&mut kk);
        let tr = TRACE.with(|t| t.get());
        if !st.want("k*P", &x, acc, &ctx) { return }
        let t = pts[(rnd() % n) as usize];
        if !st.want("k*P + Q", &(x + mk(t)), radd(acc, t), &ctx) { return }
        let mut y = mk(a);
        y.scalar_mult_normalized(&M(s));
        if !st.want("k*P (normalised)", &y, acc, &ctx) { return }
        st.checks += 1;
        if red(kk.0) != s { st.viol.push(format!("the scalar was changed from {} to {} ({})", s, red(kk.0), ctx)); return }
        // the same sequence of field operations whatever the scalar and point
        st.checks += 1;
        st.traces += 1;
        if trace0 == 0 { trace0 = tr }
        if tr != trace0 && st.viol.len() < 6 {
            st.viol.push(format!("the sequence of field operations of a scalar multiplication depends on its operands (p = {}, d = {}, {})", prime, d, ctx));
            return
        }
    }
    if st.samples.len() < 6 { st.samples.push(format!("p = {}, d = {}, {} points, scalar width {} bits", prime, d, n, M::nbits())) }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let arg = |n: &str| args.iter().position(|a| a == n).map(|i| args[i + 1].clone());
    let thorough = arg("--tier").as_deref() == Some("thorough");
    let seed: u64 = arg("--seed").unwrap_or("1".into()).parse().unwrap();
    let isprime = |n: i64| n > 1 && (2..n).take_while(|k| k * k <= n).all(|k| n % k != 0);
    let mut jobs: Vec<(i64, usize, i64, bool, u64, u64)> = Vec::new();
    let full = if thorough { 113 } else { 29 };
    for q in (3..=full).filter(|n| isprime(*n)) {
        P.with(|x| x.set(q));
        for d in 2..q { if leg(d) == -1 { for lz in [true, false] { jobs.push((q, [0, 1, 5][(d % 3) as usize], d, lz, 1 << 20, 1 << 20)); } } }
    }
    for q in [61i64, 101, 127, 251, 509, 1021].iter() {
        P.with(|x| x.set(*q));
        let ds: Vec<i64> = (2..*q).filter(|d| leg(*d) == -1).collect();
        let m = if thorough { 40 } else { 5 };
        for i in 0..m { jobs.push((*q, i % 3, ds[(seed as usize * 7 + i * 13) % ds.len()], i % 4 != 3, 40_000, 8_000)); }
    }
    // primes of several sizes, too large to enumerate
    let mut q = 1i64 << 16;
    for bits in [16, 24, 30, 31, 32, 33, 40, 48, 56, 58] {
        q = (q.max(1 << bits) / 4) * 4 + 3;
        P.with(|x| x.set(q));
        while !probable_prime() { q += 4; P.with(|x| x.set(q)); }
        let m = if thorough { 12 } else { 3 };
        for i in 0..m {
            let d = red((2 + (seed % 1_000_003) as i64 * 5 + i * 11..).find(|d| leg(*d) == -1).unwrap());
            // also one beyond the middle: no small integer
            let d = if i % 3 == 2 { red(-mulm(d, 4).max(1)) } else { d };
            let d = if leg(d) == -1 { d } else { red(-d) };
            jobs.push((q, (i % 3) as usize, d, i % 4 != 3, 6_000, if thorough { 6_000 } else { 1_500 }));
        }
        q += 4;
    }
    // fields whose bit length is far above that of the prime
    for (i, extra) in [23usize, 58, 61, 64, 100, 125, 190, 250, 253, 256, 380, 508, 512, 518, 520, 525, 573, 600, 1021, 1024, 2050, 4100, 8200].iter().enumerate() {
        for q in [7i64, 13, 59, 1021] {
            P.with(|x| x.set(q));
            let ds: Vec<i64> = (2..q).filter(|d| leg(*d) == -1).collect();
            jobs.push((q, *extra, ds[(seed as usize + i) % ds.len()], i % 2 == 0, 200, if *extra > 600 { 40 } else { 120 }));
        }
    }
    for q in [13i64, 59] {
        P.with(|x| x.set(q));
        let d = (2..q).find(|d| leg(*d) == -1).unwrap();
        jobs.push((q, 65_540, d, true, 20, 6));
    }
    let mut out = St::default();
    let next = std::sync::atomic::AtomicUsize::new(0);
    let res = std::sync::Mutex::new(Vec::new());
    std::thread::scope(|s| for _ in 0..8 {
        s.spawn(|| {
            let mut st = St::default();
            loop {
                let i = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                if i >= jobs.len() || st.viol.len() >= 3 { break }
                let (q, e, d, lz, pc, mc) = jobs[i];
                RNG.with(|r| r.set(seed.wrapping_mul(0x1234567) ^ i as u64));
                LAZY.with(|l| l.set(lz));
                let r = catch_unwind(AssertUnwindSafe(|| curve(&mut st, q, e, d, pc, mc)));
                if r.is_err() { st.viol.push(format!("the code under test panicked on p = {}, d = {}", q, d)) }
                PROTO.with(|x| if let Some(m) = x.borrow_mut().take() { st.viol.push(format!("contract of the field broken: {} (p = {}, d = {})", m, q, d)) });
            }
            st.samples.push(String::new());
            let ops = OPS.with(|o| o.get());
            res.lock().unwrap().push((st, ops));
        });
    });
    let mut ops = 0;
    for (s, o) in res.into_inner().unwrap() {
        ops += o;
        out.cases += s.cases; out.checks += s.checks; out.curves += s.curves; out.points += s.points; out.pairs += s.pairs; out.mults += s.mults; out.traces += s.traces;
        out.distinct.extend(s.distinct); out.nontriv.extend(s.nontriv); out.viol.extend(s.viol);
        out.samples.extend(s.samples.into_iter().filter(|x| !x.is_empty()));
    }
    out.samples.truncate(8);
    let q = |v: &Vec<String>| v.iter().map(|s| format!("\"{}\"", s.replace('\\', "\\\\").replace('"', "'"))).collect::<Vec<_>>().join(",");
    let vs: Vec<String> = out.viol.iter().map(|v| format!("{{\"config\":\"mock\",\"index\":0,\"message\":\"{}\"}}", v.replace('\\', "\\\\").replace('"', "'"))).collect();
    let j = format!("{{\"cases\":{},\"checks\":{},\"distinct\":{},\"distinct_nontrivial\":{},\"capped\":false,\"events\":{{\"curves\":{},\"points\":{},\"pairs added\":{},\"scalar multiplications\":{},\"operation traces compared\":{},\"field operations observed\":{}}},\"cases_per_configuration\":{{}},\"samples\":[{}],\"violations\":[{}]}}",
        out.cases, out.checks, out.distinct.len(), out.nontriv.len(), out.curves, out.points, out.pairs, out.mults, out.traces, ops, q(&out.samples), vs.join(","));
    match arg("--out") { Some(f) => std::fs::write(f, j).unwrap(), None => println!("{}", j) }
    std::process::exit(if out.viol.is_empty() { 0 } else { 1 });
}
