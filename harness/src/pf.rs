//! Field properties F01..F14, one case function each.  A case builds shadowed
//! operands, runs the real operation and compares what is observable with the
//! reference; it returns the violation, if there is one.
use crate::aim::*;
use crate::bigref::*;
use crate::fields::*;
use crate::gen::*;
use crate::stats::Stats;
use rand::{Rand, Rng as RRng};

pub type Res = Result<(), String>;

pub fn lazy<F: Fld>(v: &F) -> bool {
    let mut c = *v;
    c.normalize();
    format!("{:?}", v) != format!("{:?}", c)
}

pub fn show<F: Fld>(s: &Sv<F>) -> String { format!("residue 0x{} held as {:?}", w_hex(&s.r), s.v) }

/// Oracle: the value observed through packing is exactly the reference residue.
pub fn expect<F: Fld>(st: &mut Stats, what: &str, got: &F, want: &W, ctx: &dyn Fn() -> String) -> Res {
    st.checks += 1;
    let g = obs(got);
    st.transcript = hash_words(&[st.transcript, hash_words(&g)]);
    if g == *want { return Ok(()); }
    Err(format!("{}: got 0x{} want 0x{} [{}]", what, w_hex(&g), w_hex(want), ctx()))
}

/// Same, without normalising: the value must already be canonical.
pub fn expect_canon<F: Fld>(st: &mut Stats, what: &str, got: &F, want: &W, ctx: &dyn Fn() -> String) -> Res {
    st.checks += 1;
    let mut b = vec![0u8; F::NB];
    got.pack_normalized(&mut b);
    let mut hi = false; // bits beyond what packing shows
    for i in 0..F::N { if got.bit_normalized(i) != w_bit(want, i) { hi = true; } }
    st.transcript = hash_words(&[st.transcript, hash_words(&w_from_le(&b)), hi as u64]);
    if w_from_le(&b) == *want && !hi { return Ok(()); }
    Err(format!("{}: representation is not the canonical one: 0x{} (bits agree: {}) want 0x{} [{}]",
        what, w_hex(&w_from_le(&b)), !hi, w_hex(want), ctx()))
}

pub fn note<F: Fld>(st: &mut Stats, tag: &str, ss: &[&Sv<F>], extra: u64) {
    st.cases += 1;
    let mut ws = vec![hash_str(tag), hash_str(F::NAME), extra];
    let mut nt = false;
    let sampled = st.cases % 8 == 0;
    for s in ss {
        ws.extend_from_slice(&s.r);
        // representation is part of the identity of a case
        let mut b = [0u8; 80];
        s.v.pack_normalized(&mut b[..F::NB]);
        ws.extend(b.chunks(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())));
        let raw = w_from_le(&b[..F::NB]);
        if raw != s.r { nt = true; }
        if sampled { if lazy(&s.v) { st.ev("operands seen in lazily-normalised form (1/8 sampled)", 1); } 
                     else { st.ev("operands seen in canonical form (1/8 sampled)", 1); } }
        let bits = w_bits(&s.r);
        if bits > 40 { nt = true; }
    }
    st.fp(hash_words(&ws), nt);
}

fn pick2<F: Fld>(r: &mut Rng, f: &Fp, st: &mut Stats) -> (Sv<F>, Sv<F>) {
    if r.one_in(12) {
        st.ev("both operands at the edge", 1);
        return (edge::<F>(r, f), edge::<F>(r, f));
    }
    let (a, sa) = gen_sv::<F>(r, f);
    let (b, sb) = gen_sv::<F>(r, f);
    st.ev(SHAPES[sa], 1);
    st.ev(SHAPES[sb], 1);
    (a, b)
}

/// Some representation of the residue w.
pub fn rerep<F: Fld>(r: &mut Rng, f: &Fp, w: &W) -> Sv<F> {
    let v = from_w::<F>(w);
    let v = match r.below(12) {
        0 => v,
        10 | 11 => scaled::<F>(r, f, w).v,
        1 => { let t = if r.bool() { edge::<F>(r, f) } else { base::<F>(r, f) }; from_w::<F>(&f.sub(w, &t.r)) + t.v }
        2 => { let t = if r.bool() { edge::<F>(r, f) } else { base::<F>(r, f) }; from_w::<F>(&f.add(w, &t.r)) - t.v }
        3 => F::zero() - from_w::<F>(&f.neg(w)),
        4 => v + F::modulus(),
        5 => v - F::modulus(),
        6 => v * F::one(),
        7 => { let i = gen_i32(r); from_w::<F>(&f.sub(w, &f.small(i as i64))).small_add(i) }
        8 => { let i = gen_i32(r); from_w::<F>(&f.add(w, &f.small(i as i64))).small_sub(i) }
        _ => {
            let m = f.neg(w);
            if w_bits(w) <= 63 && w[0] < F::C { F::m_one().small_add(w[0] as i32 + 1) }
            else if w_bits(&m) <= 63 && m[0] < F::C { F::zero() - F::m_one().small_add(m[0] as i32 + 1) }
            else { v + F::modulus() + F::modulus() }
        }
    };
    Sv { v, r: *w }
}

pub fn f01<F: Fld>(r: &mut Rng, f: &Fp, st: &mut Stats) -> Res {
    let (a, mut b) = pick2::<F>(r, f, st);
    if r.one_in(4) {
        // aim the sum / difference at a hostile residue
        let (t, _) = gen_w::<F>(r, f);
        let w = if r.bool() { f.sub(&t, &a.r) } else { f.sub(&a.r, &t) };
        b = rerep::<F>(r, f, &w);
        st.ev("targeted result", 1);
    }
    note(st, "add", &[&a, &b], 0);
    let ctx = || format!("a: {}; b: {}", show(&a), show(&b));
    let s = Sv { v: F::add_r(&a.v, &b.v), r: f.add(&a.r, &b.r) };
    let d = Sv { v: F::sub_r(&a.v, &b.v), r: f.sub(&a.r, &b.r) };
    let n = Sv { v: -a.v, r: f.neg(&a.r) };
    expect(st, "a+b", &s.v, &s.r, &ctx)?;
    expect(st, "a-b", &d.v, &d.r, &ctx)?;
    expect(st, "b-a", &(b.v - a.v), &f.sub(&b.r, &a.r), &ctx)?;
    expect(st, "-a", &n.v, &n.r, &ctx)?;
    expect(st, "a+(-a)", &(a.v + n.v), &Z, &ctx)?;
    expect(st, "(a+b)-a", &F::sub_r(&s.v, &a.v), &b.r, &ctx)?;
    expect(st, "(a-b)+b", &F::add_r(&d.v, &b.v), &a.r, &ctx)?;
    expect(st, "(a+b)-(a-b)", &(s.v - d.v), &f.add(&b.r, &b.r), &ctx)?;
    expect(st, "-(a-b)", &(-d.v), &f.neg(&d.r), &ctx)?;
    let mut acc = s;
    for _ in 0..3 {
        if r.bool() { acc.v += s.v; acc.r = f.add(&acc.r, &s.r); } else { acc.v -= d.v; acc.r = f.sub(&acc.r, &d.r); }
        if r.one_in(3) { acc.v = -acc.v; acc.r = f.neg(&acc.r); }
    }
    expect(st, "accumulated sums", &acc.v, &acc.r, &ctx)?;
    st.sample(|| format!("{} : a+b, a-b, -a with {}", F::NAME, ctx()));
    Ok(())
}

pub fn f02<F: Fld>(r: &mut Rng, f: &Fp, st: &mut Stats) -> Res {
    let (mut a, mut b) = pick2::<F>(r, f, st);
    if r.one_in(12) && !w_is_zero(&a.r) {
        let (t, _) = gen_w::<F>(r, f);
        let w = f.mul(&t, &f.inv(&a.r));
        b = rerep::<F>(r, f, &w);
        st.ev("targeted result", 1);
    }
    if r.one_in(4) {
        // aim at carries inside the unreduced product
        let square = r.one_in(3);
        if let Some((x, y, kind)) = aimed::<F>(r, f, square) {
            st.ev(AIMS[kind], 1);
            if aim_ok::<F>(&x, &y, kind) { st.ev("aimed: word found as intended", 1); }
            // as they are, or as the negative number with the same digits
            a = Sv { v: from_w(&x), r: x };
            b = Sv { v: from_w(&y), r: y };
            match r.below(4) {
                0 => { a = Sv { v: F::zero() - a.v, r: f.neg(&a.r) }; }
                1 => { b = Sv { v: F::zero() - b.v, r: f.neg(&b.r) }; }
                _ => {}
            }
        }
    }
    note(st, "mul", &[&a, &b], 0);
    let ctx = || format!("a: {}; b: {}", show(&a), show(&b));
    let p = Sv { v: F::mul_r(&a.v, &b.v), r: f.mul(&a.r, &b.r) };
    expect(st, "a*b", &p.v, &p.r, &ctx)?;
    expect(st, "b*a", &(b.v * a.v), &p.r, &ctx)?;
    expect(st, "a squared", &a.v.squared(), &f.sq(&a.r), &ctx)?;
    let mut q = b.v;
    q.square();
    expect(st, "b.square()", &q, &f.sq(&b.r), &ctx)?;
    let mut m = p.v;
    F::mul_ar(&mut m, &a.v);
    expect(st, "(a*b)*a", &m, &f.mul(&p.r, &a.r), &ctx)?;
    let s = Sv { v: F::sub_r(&p.v, &q), r: f.sub(&p.r, &f.sq(&b.r)) };
    expect(st, "(a*b-b^2)^2", &s.v.squared(), &f.sq(&s.r), &ctx)?;
    expect(st, "(a*b-b^2)*(a+b)", &(s.v * (a.v + b.v)), &f.mul(&s.r, &f.add(&a.r, &b.r)), &ctx)?;
    st.sample(|| format!("{} : a*b, a^2 with {}", F::NAME, ctx()));
    Ok(())
}

pub fn f03<F: Fld>(r: &mut Rng, f: &Fp, st: &mut Stats) -> Res {
    let (a, mut b) = pick2::<F>(r, f, st);
    while w_is_zero(&b.r) { b = gen_sv::<F>(r, f).0; }
    note(st, "inv", &[&a, &b], 0);
    let ctx = || format!("a: {}; b: {}", show(&a), show(&b));
    let i = b.v.inverted();
    let iw = obs(&i);
    st.checks += 1;
    if f.mul(&iw, &b.r) != w_u64(1) || w_cmp(&iw, &f.p) != std::cmp::Ordering::Less {
        return Err(format!("inverse of b is wrong: 0x{} [{}]", w_hex(&iw), ctx()));
    }
    expect(st, "b*inv(b)", &F::mul_r(&b.v, &i), &w_u64(1), &ctx)?;
    let q = F::div_r(&a.v, &b.v);
    expect(st, "a/b", &q, &f.mul(&a.r, &iw), &ctx)?;
    expect(st, "(a/b)*b", &F::mul_r(&q, &b.v), &a.r, &ctx)?;
    if r.one_in(4) {
        // back to back with operands that agree in all words but one
        let (bs, a_s) = (sibling::<F>(r, f, &b.r), sibling::<F>(r, f, &a.r));
        let x = rerep::<F>(r, f, &a_s);
        expect(st, "a'/b after a/b", &(x.v / b.v), &f.mul(&x.r, &iw), &ctx)?;
        if !w_is_zero(&bs) {
            let y = rerep::<F>(r, f, &bs);
            let c2 = || format!("b': {}; {}", show(&y), ctx());
            let k = obs(&y.v.inverted());
            st.checks += 1;
            if f.mul(&k, &bs) != w_u64(1) {
                return Err(format!("inverse of b' after that of b is wrong: 0x{} [{}]", w_hex(&k), c2()));
            }
            expect(st, "a/b' after a/b", &F::div_r(&a.v, &y.v), &f.mul(&a.r, &k), &c2)?;
            st.ev("neighbouring operands back to back", 1);
        }
    } else if r.one_in(2) {
        let mut j = b.v;
        j.invert();
        expect(st, "invert in place", &j, &iw, &ctx)?;
        let mut x = a.v;
        F::div_ar(&mut x, &b.v);
        expect(st, "a/=b", &x, &f.mul(&a.r, &iw), &ctx)?;
        expect(st, "b/b", &(b.v / b.v), &w_u64(1), &ctx)?;
    } else {
        expect(st, "inv(inv(b))", &i.inverted(), &b.r, &ctx)?;
        let s = Sv { v: F::sub_r(&b.v, &q), r: f.sub(&b.r, &f.mul(&a.r, &iw)) };
        if !w_is_zero(&s.r) {
            let k = obs(&s.v.inverted());
            st.checks += 1;
            if f.mul(&k, &s.r) != w_u64(1) {
                return Err(format!("inverse of b - a/b is wrong: 0x{} [{}]", w_hex(&k), ctx()));
            }
        }
    }
    st.sample(|| format!("{} : 1/b, a/b with {}", F::NAME, ctx()));
    Ok(())
}

pub fn f04<F: Fld>(r: &mut Rng, f: &Fp, st: &mut Stats) -> Res {
    let (mut a, sa) = gen_sv::<F>(r, f);
    st.ev(SHAPES[sa], 1);
    let i = gen_i32(r);
    let iw = f.small(i as i64);
    if r.one_in(4) {
        let (t, _) = gen_w::<F>(r, f);
        let w = match r.below(2) { 0 => f.sub(&t, &iw), _ => f.add(&t, &iw) };
        a = rerep::<F>(r, f, &w);
        st.ev("targeted result", 1);
    }
    note(st, "small", &[&a], i as u64);
    let ctx = || format!("a: {}; i: {}", show(&a), i);
    let p = Sv { v: a.v.small_add(i), r: f.add(&a.r, &iw) };
    let m = Sv { v: a.v.small_sub(i), r: f.sub(&a.r, &iw) };
    let x = Sv { v: a.v.small_mul(i), r: f.mul(&a.r, &iw) };
    expect(st, "a+i", &p.v, &p.r, &ctx)?;
    expect(st, "a-i", &m.v, &m.r, &ctx)?;
    expect(st, "a*i", &x.v, &x.r, &ctx)?;
    let j = gen_i32(r);
    let jw = f.small(j as i64);
    let cj = || format!("{}; j: {}", ctx(), j);
    expect(st, "(a*i)*j", &x.v.small_mul(j), &f.mul(&x.r, &jw), &cj)?;
    expect(st, "(a*i)+j", &x.v.small_add(j), &f.add(&x.r, &jw), &cj)?;
    expect(st, "(a-i)*j", &m.v.small_mul(j), &f.mul(&m.r, &jw), &cj)?;
    expect(st, "(a+i)-j", &p.v.small_sub(j), &f.sub(&p.r, &jw), &cj)?;
    expect(st, "(a*i)*(a+i)", &(x.v * p.v), &f.mul(&x.r, &p.r), &cj)?;
    expect(st, "(a-i)-(a*i)", &(m.v - x.v), &f.sub(&m.r, &x.r), &cj)?;
    let mut y = a.v;
    y.small_mul_assign(j);
    y += i;
    y -= j;
    expect(st, "a*=j;+=i;-=j", &y, &f.sub(&f.add(&f.mul(&a.r, &jw), &iw), &jw), &cj)?;
    let (h, k) = (j as i16, i as i8);
    let mut z = a.v;
    z += h;
    z *= k;
    z -= k;
    z *= h;
    let (hw, kw) = (f.small(h as i64), f.small(k as i64));
    let want = f.mul(&f.sub(&f.mul(&f.add(&a.r, &hw), &kw), &kw), &hw);
    expect(st, "i16/i8 operands", &z, &want, &cj)?;
    let z = ((a.v * h) + k - h) * k;
    let want = f.mul(&f.sub(&f.add(&f.mul(&a.r, &hw), &kw), &hw), &kw);
    expect(st, "i16/i8 operators", &z, &want, &cj)?;
    st.sample(|| format!("{} : a+i, a-i, a*i with {}", F::NAME, ctx()));
    Ok(())
}

fn near(r: &mut Rng, f: &Fp, w: &W) -> W {
    let d = match r.below(6) {
        0 => w_u64(1 + r.below(3) as u64),
        1 => w_u64(f.c),
        2 => w_pow2(r.below(f.n)),
        3 => { let w = [54, 56, 58][r.below(3)]; w_pow2(r.below(f.n / w) * w) }
        4 => f.add(&w_u64(f.c), &w_u64(1)),
        _ => w_u64(1 + (r.u64() >> r.below(63))),
    };
    let d = f.red(&d);
    if r.bool() { f.add(w, &d) } else { f.sub(w, &d) }
}

pub fn f05<F: Fld>(r: &mut Rng, f: &Fp, st: &mut Stats) -> Res {
    let (a, sa) = gen_sv::<F>(r, f);
    st.ev(SHAPES[sa], 1);
    let same = rerep::<F>(r, f, &a.r);
    let ow = match r.below(3) { 0 => gen_w::<F>(r, f).0, 1 => f.neg(&a.r), _ => near(r, f, &a.r) };
    let other = rerep::<F>(r, f, &ow);
    note(st, "norm", &[&a, &same, &other], 0);
    let ctx = || format!("a: {}; b: {}; c: {}", show(&a), show(&same), show(&other));
    for s in [&a, &same, &other] {
        let mut n = s.v;
        n.normalize();
        expect_canon(st, "normalize", &n, &s.r, &ctx)?;
        let before = format!("{:?}", n);
        n.normalize();
        expect_canon(st, "normalize twice", &n, &s.r, &ctx)?;
        st.checks += 1;
        if format!("{:?}", n) != before {
            return Err(format!("normalize is not idempotent: {} then {:?} [{}]", before, n, ctx()));
        }
    }
    // one representation per residue
    let (mut x, mut y) = (a.v, same.v);
    x.normalize();
    y.normalize();
    st.checks += 1;
    if format!("{:?}", x) != format!("{:?}", y) {
        return Err(format!("two normalised forms of one residue: {:?} and {:?} [{}]", x, y, ctx()));
    }
    // equality decides residue equality, in both call forms and orders
    for (s, t) in [(&a, &same), (&same, &a), (&a, &other), (&other, &same), (&a, &a)] {
        let want = s.r == t.r;
        st.ev(if want { "equality: equal pair" } else { "equality: unequal pair" }, 1);
        let (mut x, mut y) = (s.v, t.v);
        let got = x.normalize_eq(&mut y);
        st.checks += 1;
        if got != want { return Err(format!("normalize_eq = {} on {} / {} [{}]", got, show(s), show(t), ctx())); }
        expect_canon(st, "left after normalize_eq", &x, &s.r, &ctx)?;
        expect_canon(st, "right after normalize_eq", &y, &t.r, &ctx)?;
        let mut x = s.v;
        let got = x.normalize_self_eq(&y);
        st.checks += 1;
        if got != want { return Err(format!("normalize_self_eq = {} on {} / {} [{}]", got, show(s), show(t), ctx())); }
        expect_canon(st, "left after normalize_self_eq", &x, &s.r, &ctx)?;
    }
    st.sample(|| format!("{} : normalisation and equality of {}", F::NAME, ctx()));
    Ok(())
}

pub fn f06<F: Fld>(r: &mut Rng, f: &Fp, st: &mut Stats) -> Res {
    let (a, sa) = gen_sv::<F>(r, f);
    st.ev(SHAPES[sa], 1);
    let (w, wc) = gen_w::<F>(r, f);
    st.ev(WCLASSES[wc], 1);
    note(st, "pack", &[&a], hash_words(&w));
    let ctx = || format!("a: {}; bytes of 0x{}", show(&a), w_hex(&w));
    st.checks += 1;
    if F::nbytes() as usize != F::NB || F::NB != (F::N + 7) / 8 {
        return Err(format!("nbytes() = {} for a {}-bit field", F::nbytes(), F::N));
    }
    let fill = r.u64() as u8;
    let bytes = w_to_le(&w, F::NB);
    // unpack must overwrite whatever was there
    let mut u = a.v;
    u.unpack(&bytes);
    expect_canon(st, "unpack over an old value", &u, &w, &ctx)?;
    let v = F::unpacked(&bytes);
    expect_canon(st, "unpacked", &v, &w, &ctx)?;
    let mut out = vec![fill; F::NB];
    u.pack(&mut out);
    st.checks += 1;
    if out != bytes { return Err(format!("pack(unpack(bytes)) = {:02x?} [{}]", out, ctx())); }
    // representation-independent encoding
    let want = w_to_le(&a.r, F::NB);
    let mut x = a.v;
    let mut out = vec![fill; F::NB];
    x.pack(&mut out);
    st.checks += 1;
    if out != want { return Err(format!("pack(a) = {:02x?} [{}]", out, ctx())); }
    expect_canon(st, "value left by pack", &x, &a.r, &ctx)?;
    let mut y = a.v;
    st.checks += 1;
    let pv = y.packed_vec();
    if pv != want { return Err(format!("packed(a) = {:02x?} [{}]", pv, ctx())); }
    let mut z = a.v;
    z.normalize();
    let mut out = vec![!fill; F::NB];
    z.pack_normalized(&mut out);
    st.checks += 1;
    if out != want { return Err(format!("pack_normalized(a) = {:02x?} [{}]", out, ctx())); }
    // inside a bigger buffer nothing else is touched
    let off = r.below(9);
    let mut big = vec![fill; F::NB + 32];
    let mut t = a.v;
    t.pack(&mut big[off..off + F::NB]);
    st.checks += 1;
    if big[off..off + F::NB] != want[..] || big[..off].iter().chain(&big[off + F::NB..]).any(|b| *b != fill) {
        return Err(format!("pack into a window at {}: {:02x?} [{}]", off, big, ctx()));
    }
    let back = F::unpacked(&big[off..off + F::NB]);
    expect(st, "unpack(pack(a))", &back, &a.r, &ctx)?;
    st.sample(|| format!("{} : pack/unpack of {}", F::NAME, ctx()));
    Ok(())
}

pub fn nonresidue(f: &Fp) -> W {
    let mut k = 2;
    loop {
        if f.legendre(&w_u64(k)) == -1 { return w_u64(k); }
        k += 1;
    }
}

pub fn f07<F: Fld>(r: &mut Rng, f: &Fp, st: &mut Stats, nr: &W) -> Res {
    let mode = r.below(4);
    let (s, want) = match mode {
        0 => { // square of a hostile value
            let w = gen_w::<F>(r, f).0;
            let q = f.sq(&w);
            (rerep::<F>(r, f, &q), if w_is_zero(&w) { 0 } else { 1 })
        }
        1 => {
            let w = gen_w::<F>(r, f).0;
            let q = f.mul(&f.sq(&w), nr);
            (rerep::<F>(r, f, &q), if w_is_zero(&w) { 0 } else { -1 })
        }
        2 => { let z = Z; (if r.one_in(4) { rerep::<F>(r, f, &z) } else { gen_sv::<F>(r, f).0 }, 2) }
        _ => (gen_sv::<F>(r, f).0, 2),
    };
    let want = if want == 2 { f.legendre(&s.r) } else { want };
    note(st, "legendre", &[&s], 0);
    st.ev(match want { 0 => "zero", 1 => "residue", _ => "non-residue" }, 1);
    let ctx = || format!("a: {}", show(&s));
    expect(st, "legendre(a)", &s.v.legendre(), &f.small(want as i64), &ctx)?;
    if r.one_in(4) {
        let w = sibling::<F>(r, f, &s.r);
        let y = rerep::<F>(r, f, &w);
        expect(st, "legendre(a') after legendre(a)", &y.v.legendre(), &f.small(f.legendre(&w) as i64),
            &|| format!("a': {}; {}", show(&y), ctx()))?;
        st.ev("neighbouring operands back to back", 1);
    }
    st.sample(|| format!("{} : legendre = {} for {}", F::NAME, want, ctx()));
    Ok(())
}

pub fn f08<F: Fld>(r: &mut Rng, f: &Fp, st: &mut Stats) -> Res {
    let w = match r.below(6) {
        0 => gen_w::<F>(r, f).0,
        _ => { let w = gen_w::<F>(r, f).0; f.sq(&w) }
    };
    if f.sqrt(&w).is_none() {
        // outside the guarantee (non-residues return garbage): must still return
        st.ev("non-residue (call only)", 1);
        let s = rerep::<F>(r, f, &w);
        let _ = obs(&s.v.sqrt());
        return Ok(());
    }
    let s = rerep::<F>(r, f, &w);
    note(st, "sqrt", &[&s], 0);
    st.ev("square", 1);
    let ctx = || format!("a: {}", show(&s));
    let q = s.v.sqrt();
    let qw = obs(&q);
    st.checks += 1;
    if f.sq(&qw) != s.r { return Err(format!("sqrt(a) = 0x{} does not square to a [{}]", w_hex(&qw), ctx())); }
    expect(st, "sqrt(a)^2", &q.squared(), &s.r, &ctx)?;
    // the same residue in another representation has the same root
    let t = rerep::<F>(r, f, &w);
    expect(st, "sqrt of another representation", &t.v.sqrt(), &qw, &ctx)?;
    if r.one_in(4) {
        for _ in 0..5 {
            let w = sibling::<F>(r, f, &s.r);
            if f.sqrt(&w).is_none() { continue; }
            let y = rerep::<F>(r, f, &w);
            let k = obs(&y.v.sqrt());
            st.checks += 1;
            if f.sq(&k) != w { return Err(format!("sqrt(a') = 0x{} after sqrt(a) does not square to a' [a': {}; {}]", w_hex(&k), show(&y), ctx())); }
            st.ev("neighbouring operands back to back", 1);
            break;
        }
    }
    st.sample(|| format!("{} : sqrt = 0x{} for {}", F::NAME, w_hex(&qw), ctx()));
    Ok(())
}

pub fn f09<F: Fld>(r: &mut Rng, f: &Fp, st: &mut Stats) -> Res {
    let (a, sa) = gen_sv::<F>(r, f);
    st.ev(SHAPES[sa], 1);
    note(st, "bits", &[&a], 0);
    let ctx = || format!("a: {}", show(&a));
    st.checks += 1;
    if F::nbits() != F::N { return Err(format!("nbits() = {}", F::nbits())); }
    for k in 0..F::N {
        let i = if k % 2 == 0 { k / 2 } else { F::N - 1 - k / 2 };
        let mut x = a.v; // every index straight from the lazy form
        st.checks += 1;
        if x.bit(i) != w_bit(&a.r, i) { return Err(format!("bit({}) = {} [{}]", i, !w_bit(&a.r, i), ctx())); }
        if k < 2 { expect_canon(st, "value left by bit()", &x, &a.r, &ctx)?; }
    }
    let mut x = a.v;
    x.normalize();
    let mut back = Z;
    for i in 0..F::N { if x.bit_normalized(i) { back[i / 64] |= 1 << (i % 64); } }
    st.checks += 1;
    if back != a.r { return Err(format!("bits read back as 0x{} [{}]", w_hex(&back), ctx())); }
    st.sample(|| format!("{} : all {} bits of {}", F::NAME, F::N, ctx()));
    Ok(())
}

pub fn f10<F: Fld>(r: &mut Rng, f: &Fp, st: &mut Stats) -> Res {
    let (a, b) = pick2::<F>(r, f, st);
    note(st, "mask", &[&a, &b], 0);
    let ctx = || format!("a: {}; b: {}", show(&a), show(&b));
    // selection of whole, un-normalised values by masks
    for bit in [false, true] {
        let t = F::filled(bit);
        let mut n = a.v;
        n.fill(!bit);
        let mut x = a.v;
        x.normalized_bitand(&t);
        let mut y = b.v;
        y.normalized_bitand(&n);
        let mut o = x;
        o.normalized_bitor(&y);
        let w = if bit { &a } else { &b };
        expect(st, "masked selection", &o, &w.r, &ctx)?;
        expect(st, "use of a selected value", &(o * a.v - b.v), &f.sub(&f.mul(&w.r, &a.r), &b.r), &ctx)?;
        let (z, k) = if bit { (y, x) } else { (x, y) };
        expect(st, "masked with zeros", &z, &Z, &ctx)?;
        expect(st, "masked with ones", &k, &w.r, &ctx)?;
    }
    let mut and = Z;
    let mut or = Z;
    for i in 0..L { and[i] = a.r[i] & b.r[i]; or[i] = a.r[i] | b.r[i]; }
    let or = f.red(&or);
    let (mut na, mut nb) = (a.v, b.v);
    na.normalize();
    nb.normalize();
    let (mut x, mut y) = (a.v, b.v);
    x.normalize_bitand(&mut y);
    expect(st, "normalize_bitand", &x, &and, &ctx)?;
    expect_canon(st, "right operand of normalize_bitand", &y, &b.r, &ctx)?;
    let (mut x, mut y) = (a.v, b.v);
    x.normalize_bitor(&mut y);
    expect(st, "normalize_bitor", &x, &or, &ctx)?;
    expect_canon(st, "right operand of normalize_bitor", &y, &b.r, &ctx)?;
    let mut x = a.v;
    x.normalize_self_bitand(&nb);
    expect(st, "normalize_self_bitand", &x, &and, &ctx)?;
    let mut x = a.v;
    x.normalize_self_bitor(&nb);
    expect(st, "normalize_self_bitor", &x, &or, &ctx)?;
    let mut x = na;
    x.normalized_bitand(&nb);
    expect(st, "normalized_bitand", &x, &and, &ctx)?;
    let mut x = na;
    x.normalized_bitor(&nb);
    expect(st, "normalized_bitor", &x, &or, &ctx)?;
    st.sample(|| format!("{} : selection, and/or with {}", F::NAME, ctx()));
    Ok(())
}

/// Adapter: our generator as a rand 0.3 source, with hostile modes.
pub struct Src { pub r: Rng, pub mode: usize, pub n: u64, pub burst: (usize, u64) }
impl Src { pub fn new(seed: u64, mode: usize) -> Src { Src { r: Rng::new(seed), mode, n: 0, burst: (0, 0) } } }
impl RRng for Src {
    fn next_u32(&mut self) -> u32 { self.next_u64() as u32 }
    fn next_u64(&mut self) -> u64 {
        self.n += 1;
        match self.mode {
            0 => self.r.u64(),
            // extreme words, always mixed with live ones so that rejection loops end
            1 => match self.r.below(4) { 0 => 0, 1 => u64::MAX, _ => self.r.u64() },
            2 => match self.r.below(4) { 0 => 1 << self.r.below(64), 1 => u64::MAX << self.r.below(64), _ => self.r.u64() },
            3 => match self.r.below(3) { 0 => u64::MAX >> (1 + self.r.below(20)), 1 => i64::MAX as u64, _ => self.r.u64() },
            // stuck for a while, then live again
            _ => {
                if self.burst.0 == 0 {
                    let v = match self.r.below(6) {
                        0 => 0, 1 => u64::MAX, 2 => i64::MAX as u64, 3 => u64::MAX >> (1 + self.r.below(40)),
                        4 => 1 << self.r.below(64), _ => self.r.u64(),
                    };
                    self.burst = (1 + self.r.below(24), v);
                }
                self.burst.0 -= 1;
                if self.burst.0 == 0 { self.r.u64() } else { self.burst.1 }
            }
        }
    }
}

/// No two of the n bits agree (or disagree) much more often than chance has it.
fn bits_differ<F: Fld>(hist: &[W], tol: i64, ctx: &dyn Fn() -> String) -> Res {
    let words = (hist.len() + 63) / 64;
    let mut col = vec![0u64; F::N * words];
    for (k, w) in hist.iter().enumerate() {
        for i in 0..F::N { if w_bit(w, i) { col[i * words + k / 64] |= 1 << (k % 64); } }
    }
    for i in 0..F::N {
        for j in i + 1..F::N {
            let mut d = 0i64;
            for k in 0..words { d += (col[i * words + k] ^ col[j * words + k]).count_ones() as i64; }
            if (d - hist.len() as i64 / 2).abs() > tol {
                return Err(format!("bits {} and {} differ in {} of {} draws [{}]", i, j, d, hist.len(), ctx()));
            }
        }
    }
    Ok(())
}

/// A set of bit positions whose xor is constant over all draws, if there is one.
fn linear_relation(n: usize, hist: &[W]) -> Option<Vec<usize>> {
    let words = (hist.len() + 63) / 64;
    // vectors: one per bit (its history), plus the all-ones history
    let mut rows: Vec<(Vec<u64>, Vec<u64>)> = Vec::new(); // (history, combination of bits)
    let mut pivots: Vec<usize> = Vec::new();
    for i in 0..=n {
        let mut h = vec![0u64; words];
        let mut c = vec![0u64; n / 64 + 1];
        for (k, w) in hist.iter().enumerate() { if i == n || w_bit(w, i) { h[k / 64] |= 1 << (k % 64); } }
        c[i / 64] |= 1 << (i % 64);
        for (row, p) in rows.iter().zip(&pivots) {
            if (h[p / 64] >> (p % 64)) & 1 == 1 {
                for k in 0..words { h[k] ^= row.0[k]; }
                for k in 0..c.len() { c[k] ^= row.1[k]; }
            }
        }
        match (0..hist.len()).find(|k| (h[k / 64] >> (k % 64)) & 1 == 1) {
            Some(p) => { rows.push((h, c)); pivots.push(p); }
            None => return Some((0..n).filter(|k| (c[k / 64] >> (k % 64)) & 1 == 1).collect()),
        }
    }
    None
}

pub fn f11<F: Fld + Rand>(r: &mut Rng, f: &Fp, st: &mut Stats) -> Res {
    let seed = r.u64();
    let mode = r.below(5);
    let mk = || Src::new(seed, mode);
    let (mut s1, mut s2) = (mk(), mk());
    const K: usize = 192;
    let mut ones = vec![0u32; F::N];
    let mut seen = std::collections::HashSet::new();
    let mut hist = Vec::new();
    let ctx = || format!("{} rand seed {:#x} mode {}", F::NAME, seed, mode);
    for _ in 0..K {
        let v = F::rand(&mut s1);
        let w = obs(&v);
        // already canonical: no normalisation needed before use
        expect_canon(st, "fresh random element", &v, &w, &ctx)?;
        st.checks += 1;
        if w_cmp(&w, &f.p) != std::cmp::Ordering::Less { return Err(format!("random element >= p [{}]", ctx())); }
        let v2: F = s2.gen();
        expect(st, "same generator state, same element", &v2, &w, &ctx)?;
        for i in 0..F::N { if w_bit(&w, i) { ones[i] += 1; } }
        hist.push(w);
        seen.insert(w);
        st.cases += 1;
        st.fp(hash_words(&w), w_bits(&w) > 64);
        // usable as an operand straight away
        expect(st, "random element squared", &v.squared(), &f.sq(&w), &ctx)?;
    }
    st.checks += 1;
    if mode == 0 {
        if seen.len() != K { return Err(format!("only {} distinct of {} draws [{}]", seen.len(), K, ctx())); }
        // 192 fair draws: 8 sigma; constant or badly biased bits only
        for i in 0..F::N {
            let o = ones[i] as i64;
            if (o - K as i64 / 2).abs() > 56 { return Err(format!("bit {} set in {} of {} draws [{}]", i, o, K, ctx())); }
        }
        // no bit is a copy (or the complement) of another one, of any other one
        bits_differ::<F>(&hist, 70, &ctx)?;
        st.checks += (F::N * (F::N - 1) / 2) as u64;
        if r.one_in(24) {
            // a long batch: small biases (10 % and up), weak dependences between
            // two bits, and linear relations between any number of bits
            const M: usize = 4096;
            let mut hist = Vec::with_capacity(M);
            let mut seen = std::collections::HashSet::new();
            for _ in 0..M { let w = obs(&F::rand(&mut s1)); seen.insert(w); hist.push(w); }
            st.checks += 3;
            if seen.len() != M { return Err(format!("only {} distinct of {} draws [{}]", seen.len(), M, ctx())); }
            for i in 0..F::N {
                let o = hist.iter().filter(|w| w_bit(w, i)).count() as i64;
                // 9 sigma
                if (o - M as i64 / 2).abs() > 288 { return Err(format!("bit {} set in {} of {} draws [{}]", i, o, M, ctx())); }
            }
            bits_differ::<F>(&hist, 320, &ctx)?; // 10 sigma
            if let Some(rel) = linear_relation(F::N, &hist[..F::N + 80]) {
                return Err(format!("the xor of bits {:?} is the same in {} draws [{}]", rel, F::N + 80, ctx()));
            }
            // consecutive draws are unrelated bit by bit
            for i in 0..F::N {
                let o = hist.windows(2).filter(|x| w_bit(&x[0], i) == w_bit(&x[1], i)).count() as i64;
                if (o - M as i64 / 2).abs() > 320 { return Err(format!("bit {} repeats in {} of {} successive draws [{}]", i, o, M, ctx())); }
            }
            st.ev("long fair batches (4096 draws)", 1);
        }
        st.ev("fair generator batches", 1);
    } else {
        st.ev("hostile generator batches", 1);
    }
    st.sample(|| format!("{}: first element 0x{}", ctx(), w_hex(&hist[0])));
    Ok(())
}

pub fn f12<F: Fld>(r: &mut Rng, f: &Fp, st: &mut Stats) -> Res {
    let (a, sa) = gen_sv::<F>(r, f);
    st.ev(SHAPES[sa], 1);
    note(st, "hex", &[&a], 0);
    let lower: String = w_to_le(&a.r, F::NB).iter().rev().map(|b| format!("{:02x}", b)).collect();
    let (l, u) = (format!("{:x}", a.v), format!("{:X}", a.v));
    st.checks += 2;
    if l != lower { return Err(format!("{{:x}} gives {} [{}]", l, show(&a))); }
    if u != lower.to_uppercase() { return Err(format!("{{:X}} gives {} [{}]", u, show(&a))); }
    let b = rerep::<F>(r, f, &a.r);
    st.checks += 1;
    if format!("{:x}", b.v) != lower { return Err(format!("{{:x}} depends on representation [{} / {}]", show(&a), show(&b))); }
    expect(st, "value after formatting", &a.v, &a.r, &|| show(&a))?;
    st.sample(|| format!("{} : {:x}", F::NAME, a.v));
    Ok(())
}

pub fn f13<F: Fld>(r: &mut Rng, f: &Fp, st: &mut Stats, long: bool) -> Res {
    const REGS: usize = 6;
    let mut regs: Vec<Sv<F>> = (0..REGS).map(|_| gen_sv::<F>(r, f).0).collect();
    let refs: Vec<&Sv<F>> = regs.iter().collect();
    note(st, "history", &refs, r.clone().u64());
    let steps = if long { 400 + r.below(400) } else { 20 + r.below(120) };
    // a history concentrates on a few kinds so that lazy carries can pile up
    let kinds: Vec<usize> = { let m = 1 + r.below(5); (0..m).map(|_| r.below(15)).collect() };
    let mut log: Vec<String> = Vec::new();
    let check_every = 1 + r.below(12);
    let names = ["add", "sub", "mul", "square", "neg", "sadd", "ssub", "smul", "double", "zero-minus",
        "normalize", "repack", "select", "invert/div", "eq"];
    for k in 0..steps {
        let kind = if r.one_in(6) { r.below(15) } else { kinds[r.below(kinds.len())] };
        let kind = if kind == 13 && !r.one_in(40) { 2 } else { kind };
        let (d, s, t) = (r.below(REGS), r.below(REGS), r.below(REGS));
        let (x, y) = (regs[s], regs[t]);
        let mut op = String::new();
        let z = match kind {
            0 => { if r.bool() { Sv { v: F::add_r(&x.v, &y.v), r: f.add(&x.r, &y.r) } }
                   else { let mut v = x.v; F::add_ar(&mut v, &y.v); Sv { v, r: f.add(&x.r, &y.r) } } }
            1 => { if r.bool() { Sv { v: F::sub_r(&x.v, &y.v), r: f.sub(&x.r, &y.r) } }
                   else { let mut v = x.v; F::sub_ar(&mut v, &y.v); Sv { v, r: f.sub(&x.r, &y.r) } } }
            2 => { if r.bool() { Sv { v: F::mul_r(&x.v, &y.v), r: f.mul(&x.r, &y.r) } }
                   else { let mut v = x.v; v *= y.v; Sv { v, r: f.mul(&x.r, &y.r) } } }
            3 => Sv { v: x.v.squared(), r: f.sq(&x.r) },
            4 => Sv { v: -x.v, r: f.neg(&x.r) },
            5 => { let i = gen_i32(r); op = i.to_string(); Sv { v: x.v.small_add(i), r: f.add(&x.r, &f.small(i as i64)) } }
            6 => { let i = gen_i32(r); op = i.to_string(); Sv { v: x.v - i, r: f.sub(&x.r, &f.small(i as i64)) } }
            7 => { let i = gen_i32(r); op = i.to_string(); Sv { v: x.v * i, r: f.mul(&x.r, &f.small(i as i64)) } }
            8 => Sv { v: x.v + x.v, r: f.add(&x.r, &x.r) },
            9 => Sv { v: F::zero() - x.v, r: f.neg(&x.r) },
            10 => { let mut v = x.v; v.normalize(); Sv { v, r: x.r } }
            11 => { let mut c = x.v; let b = c.packed_vec(); Sv { v: F::unpacked(&b), r: x.r } }
            12 => {
                let bit = r.bool();
                let (mut p, mut q) = (x.v, y.v);
                p.normalized_bitand(&F::filled(bit));
                q.normalized_bitand(&F::filled(!bit));
                p.normalized_bitor(&q);
                Sv { v: p, r: if bit { x.r } else { y.r } }
            }
            13 => {
                if w_is_zero(&y.r) { x } else { Sv { v: F::div_r(&x.v, &y.v), r: f.mul(&x.r, &f.inv(&y.r)) } }
            }
            _ => {
                let (mut p, mut q) = (x.v, y.v);
                st.checks += 1;
                if p.normalize_eq(&mut q) != (x.r == y.r) {
                    return Err(format!("step {}: equality wrong on {} / {}; history {:?}", k, show(&x), show(&y), log));
                }
                x
            }
        };
        st.ev(names[kind], 1);
        log.push(format!("r{}={}(r{},r{}){}", d, names[kind], s, t, op));
        regs[d] = z;
        if k % check_every == 0 {
            expect(st, "register", &regs[d].v, &regs[d].r, &|| format!("step {} of {:?}", k, log))?;
        }
    }
    for i in 0..REGS {
        expect(st, "register at the end", &regs[i].v, &regs[i].r, &|| format!("register {} after {:?}", i, log))?;
        // and in the canonical form after an explicit normalisation
        let mut v = regs[i].v;
        v.normalize();
        expect_canon(st, "normalised register at the end", &v, &regs[i].r, &|| format!("register {} after {:?}", i, log))?;
    }
    st.sample(|| format!("{} : {} steps, e.g. {}", F::NAME, steps, log[..log.len().min(8)].join("; ")));
    Ok(())
}

pub fn f14<F: Fld>(r: &mut Rng, f: &Fp, st: &mut Stats, with_div: bool) -> Res {
    let (a, b) = pick2::<F>(r, f, st);
    let i = gen_i32(r);
    note(st, "forms", &[&a, &b], i as u64);
    let ctx = || format!("a: {}; b: {}; i: {}", show(&a), show(&b), i);
    let (da, db) = (format!("{:?}", a.v), format!("{:?}", b.v));
    let iw = f.small(i as i64);
    let mut groups: Vec<(Forms<F>, W)> = vec![
        (F::forms_add(&a.v, &b.v), f.add(&a.r, &b.r)),
        (F::forms_sub(&a.v, &b.v), f.sub(&a.r, &b.r)),
        (F::forms_mul(&a.v, &b.v), f.mul(&a.r, &b.r)),
        (F::forms_sadd(&a.v, i), f.add(&a.r, &iw)),
        (F::forms_ssub(&a.v, i), f.sub(&a.r, &iw)),
        (F::forms_smul(&a.v, i), f.mul(&a.r, &iw)),
    ];
    if with_div && !w_is_zero(&b.r) {
        groups.push((F::forms_div(&a.v, &b.v), f.mul(&a.r, &f.inv(&b.r))));
    }
    for (forms, want) in &groups {
        for (name, v) in forms {
            st.ev(name, 1);
            expect(st, name, v, want, &ctx)?;
        }
    }
    for (name, v) in F::forms_self(&a.v) {
        let want = if name.contains('+') || name.contains("small_mul") { f.add(&a.r, &a.r) } else { f.sq(&a.r) };
        st.ev(name, 1);
        expect(st, name, &v, &want, &ctx)?;
    }
    // functional forms leave their operands alone
    let _ = (a.v.squared(), a.v.inverted(), a.v.legendre(), a.v.small_add(i), a.v.small_mul(i), a.v.small_sub(i), -a.v);
    st.checks += 2;
    if format!("{:?}", a.v) != da || format!("{:?}", b.v) != db {
        return Err(format!("an operand was modified [{}]", ctx()));
    }
    st.sample(|| format!("{} : {} operator forms with {}", F::NAME, groups.iter().map(|g| g.0.len()).sum::<usize>(), ctx()));
    Ok(())
}
