//! Curve properties C01..C05, C07 and the published constants K01.
use crate::bigref::*;
use crate::fields::*;
use crate::gen::*;
use crate::pf::*;
use crate::stats::Stats;
use crate::with_field;
use safecurves_rust::curve::edwards::{EdwardsCurve, EdwardsExtended};
use safecurves_rust::curve::point::Point;
use safecurves_rust::field::prime_field::PrimeField;
use safecurves_rust::normalize::{Normalize, NormalizeEq};
use safecurves_rust::pack::Pack;
use std::marker::PhantomData;
use std::sync::OnceLock;

pub type Pt<C> = EdwardsExtended<C>;

// ---- user-defined curves over every field -------------------------------

#[derive(Clone, Copy)]
pub struct User<F: Fld, const SEL: usize>(PhantomData<F>);

pub static DS: [[OnceLock<W>; 4]; 9] = [const { [const { OnceLock::new() }; 4] }; 9];

pub fn fidx(name: &str) -> usize { FIELDS.iter().position(|x| *x == name).unwrap() }

pub fn user_d(f: &Fp, sel: usize) -> W {
    *DS[fidx(f.name)][sel].get_or_init(|| {
        let mut k = 2u64;
        let mut r = Rng::new(hash_str(f.name) ^ sel as u64);
        loop {
            let d = match sel {
                0 => w_u64(k),
                // -1 where that is a non-square
                1 => f.neg(&w_u64(k - 1)),
                // few bits, or runs of them
                2 => {
                    let (a, b) = (w_pow2(1 + r.below(f.n - 1)), w_pow2(r.below(f.n)));
                    f.red(&match k % 4 { 0 => a, 1 => w_sub(&a, &w_u64(1)), 2 => w_sub(&f.p, &a), _ => w_add(&a, &b) })
                }
                _ => f.red(&[r.u64(), r.u64(), r.u64(), r.u64(), r.u64(), r.u64(), r.u64(), r.u64(), r.u64()]),
            };
            if f.legendre(&d) == -1 { return d; }
            k += 1;
        }
    })
}

impl<F: Fld, const SEL: usize> EdwardsCurve for User<F, SEL> {
    type Scalar = F;
    fn d_val() -> F {
        let d = DS[fidx(F::NAME)][SEL].get().unwrap();
        if SEL == 3 {
            // a parameter handed over in a lazily normalised form
            let v: F = from_w(d);
            v + F::modulus() + F::modulus() - F::modulus()
        } else { from_w(d) }
    }
}

pub struct CurveInfo {
    pub name: &'static str,
    pub field: &'static str,
    pub d: i64,
    pub bx: &'static str,
    pub by: &'static str,
    pub order: &'static str,
    pub cofactor: u64,
}

/// Published parameters (safecurves.cr.yp.to), independent of the repository.
pub const NAMED: [CurveInfo; 5] = [
    CurveInfo { name: "E-222", field: "e222_117", d: 160102,
        bx: "19b12bb156a389e55c9768c303316d07c23adab3736eb2bc3eb54e51", by: "1c",
        order: "ffffffffffffffffffffffffffff70cbc95e932f802f31423598cbf", cofactor: 4 },
    CurveInfo { name: "Curve1174", field: "e251_9", d: -1174,
        bx: "37fbb0cea308c479343aee7c029a190c021d96a492ecd6516123f27bce29eda",
        by: "6b72f82d47fb7cc6656841169840e0c4fe2dee2af3f976ba4ccb1bf9b46360e",
        order: "1fffffffffffffffffffffffffffffff77965c4dfd307348944d45fd166c971", cofactor: 4 },
    CurveInfo { name: "E-382", field: "e382_105", d: -67254,
        bx: "196f8dd0eab20391e5f05be96e8d20ae68f840032b0b64352923bab85364841193517dbce8105398ebc0cc9470f79603",
        by: "11",
        order: "fffffffffffffffffffffffffffffffffffffffffffffffd5fb21f21e95eee17c5e69281b102d2773e27e13fd3c9719",
        cofactor: 4 },
    CurveInfo { name: "Curve41417", field: "e414_17", d: 3617,
        bx: "1a334905141443300218c0631c326e5fcd46369f44c03ec7f57ff35498a4ab4d6d6ba111301a73faa8537c64c4fd3812f3cbc595",
        by: "22",
        order: "7ffffffffffffffffffffffffffffffffffffffffffffffffffeb3cc92414cf706022b36f1c0338ad63cf181b0e71a5e106af79",
        cofactor: 8 },
    CurveInfo { name: "E-521", field: "e521_1", d: -376014,
        bx: "752cb45c48648b189df90cb2296b2878a3bfd9f42fc6c818ec8bf3c9c0c6203913f6ecc5ccc72434b1ae949d568fc99c6059d0fb13364838aa302a940a2f19ba6c",
        by: "c",
        order: "7ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffd15b6c64746fc85f736b8af5e7ec53f04fbd8c4569a8f1f4540ea2435f5180d6b",
        cofactor: 4 },
];

/// Per-curve reference data.
pub struct Env<'a> {
    pub cv: RCurve<'a>,
    pub name: String,
    /// affine reference points: torsion, base and its multiples, random lifts
    pub pool: Vec<(W, W)>,
    pub ntors: usize,
    pub order: Option<W>,
    pub base: Option<(W, W)>,
    /// points of which x, y or x^2 is a hostile residue, made on first use
    hostile: OnceLock<Vec<(W, W)>>,
}

fn hostile<F: Fld>(e: &Env) -> Vec<(W, W)> {
    let f = e.cv.f;
    let mut r = Rng::new(hash_str(&e.name) ^ 0x1057);
    let one = w_u64(1);
    let mut v = Vec::new();
    while v.len() < 96 {
        let (w, _) = gen_w::<F>(&mut r, f);
        let neg = r.bool();
        let p = match r.below(3) {
            0 => e.cv.lift_y(&w, neg),
            1 => e.cv.lift_y(&w, neg).map(|(x, y)| (y, x)),
            _ => {
                // x^2 = w, hence y^2 = (1 - w) / (1 - dw)
                let den = f.sub(&one, &f.mul(&e.cv.d, &w));
                match (f.sqrt(&w), w_is_zero(&den)) {
                    (Some(x), false) => f.sqrt(&f.mul(&f.sub(&one, &w), &f.inv(&den))).map(|y| if neg { (x, f.neg(&y)) } else { (y, x) }),
                    _ => None,
                }
            }
        };
        if let Some(p) = p { if e.cv.on_curve(&e.cv.aff(&p.0, &p.1)) { v.push(p) } else { panic!("reference: hostile point") } }
    }
    v
}

pub fn to_aff(f: &Fp, p: &RPt) -> (W, W) {
    let zi = f.inv(&p.z);
    (f.mul(&p.x, &zi), f.mul(&p.y, &zi))
}

pub fn env<'a>(f: &'a Fp, name: &str, d: W, info: Option<&CurveInfo>, seed: u64) -> Env<'a> {
    let cv = RCurve { f, d };
    assert!(f.legendre(&d) == -1, "reference: d must be a non-square");
    let mut r = Rng::new(seed ^ hash_str(name));
    let one = w_u64(1);
    let m1 = f.neg(&one);
    let mut pool = vec![(Z, one), (Z, m1), (one, Z), (m1, Z)];
    let mut order = None;
    let mut base = None;
    let lift = |r: &mut Rng| loop {
        let mut y = Z;
        for i in 0..L { y[i] = r.u64(); }
        if let Some(p) = cv.lift_y(&f.red(&y), r.bool()) { return p; }
    };
    if let Some(i) = info {
        let l = w_from_hex(i.order);
        let b = (w_from_hex(i.bx), w_from_hex(i.by));
        assert!(cv.on_curve(&cv.aff(&b.0, &b.1)), "reference: base point of {}", i.name);
        assert!(cv.is_id(&cv.mulk(&l, &cv.aff(&b.0, &b.1))), "reference: order of {}", i.name);
        if i.cofactor == 8 {
            for _ in 0..16 {
                let p = lift(&mut r);
                let t = to_aff(f, &cv.mulk(&l, &cv.aff(&p.0, &p.1)));
                if !pool.contains(&t) { pool.push(t); }
            }
        }
        order = Some(l);
        base = Some(b);
    }
    // points of order eight have y = x or y = -x: d x^4 - 2 x^2 + 1 = 0
    if let Some(s) = f.sqrt(&f.sub(&one, &d)) {
        for s in [s, f.neg(&s)] {
            if let Some(x) = f.sqrt(&f.mul(&f.add(&one, &s), &f.inv(&d))) {
                let m = f.neg(&x);
                for t in [(x, x), (x, m), (m, x), (m, m)] { if !pool.contains(&t) { pool.push(t); } }
            }
        }
    }
    let ntors = pool.len();
    for p in pool[..ntors].to_vec() {
        let t = cv.aff(&p.0, &p.1);
        assert!(cv.on_curve(&t));
        assert!(cv.is_id(&cv.mulk(&w_u64(8), &t)));
        if let Some(b) = base { pool.push(to_aff(f, &cv.add(&t, &cv.aff(&b.0, &b.1)))); }
    }
    if let Some(b) = base {
        let b = cv.aff(&b.0, &b.1);
        for k in [2u64, 3, 4, 5, 7, 8, 16] { pool.push(to_aff(f, &cv.mulk(&w_u64(k), &b))); }
    }
    // small-coordinate points and random ones
    let mut y = 2;
    while pool.len() < ntors + 24 {
        if let Some(p) = cv.lift_y(&w_u64(y), r.bool()) { pool.push(p); }
        y += 1;
    }
    for _ in 0..24 { let p = lift(&mut r); pool.push(p); }
    Env { cv, name: name.into(), pool, ntors, order, base, hostile: OnceLock::new() }
}

pub fn ref_pick(r: &mut Rng, e: &Env) -> (W, W) {
    let (x, y) = match r.below(5) {
        0 => e.pool[r.below(e.ntors)],
        1 | 2 => {
            let h = e.hostile.get_or_init(|| with_field!(e.cv.f.name, F, hostile::<F>(e)));
            h[r.below(h.len())]
        }
        _ => e.pool[r.below(e.pool.len())],
    };
    if r.bool() { (e.cv.f.neg(&x), y) } else { (x, y) }
}

#[derive(Clone, Copy)]
pub struct Sp<C: EdwardsCurve> { pub p: Pt<C>, pub r: RPt }

pub fn mk<C: EdwardsCurve>(r: &mut Rng, e: &Env, a: &(W, W)) -> Sp<C> where C::Scalar: Fld {
    let f = e.cv.f;
    let (x, y) = if r.bool() { (from_w::<C::Scalar>(&a.0), from_w::<C::Scalar>(&a.1)) }
        else { (rerep::<C::Scalar>(r, f, &a.0).v, rerep::<C::Scalar>(r, f, &a.1).v) };
    let mut p = Pt::<C>::zero();
    p.init(x, y);
    Sp { p, r: e.cv.aff(&a.0, &a.1) }
}

/// One operation on a register, which then holds its result.
fn step<C: EdwardsCurve>(r: &mut Rng, e: &Env, p: &mut Sp<C>) where C::Scalar: Fld {
    let two = e.cv.add(&p.r, &p.r);
    match r.below(6) {
        0 => *p = Sp { p: p.p.doubled(), r: two },
        1 => { p.p.double(); p.r = two }
        2 => *p = Sp { p: p.p.tripled(), r: e.cv.add(&two, &p.r) },
        3 => { p.p.triple(); p.r = e.cv.add(&two, &p.r) }
        4 => if r.one_in(200) {
            let k = r.below(20) as u64;
            let mut w: C::Scalar = from_w(&w_u64(k));
            p.p.scalar_mult(&mut w);
            p.r = e.cv.mulk(&w_u64(k), &p.r)
        } else { let q = p.p; p.p += &q; p.r = two },
        _ => { let b = ref_pick(r, e); let q = mk::<C>(r, e, &b); p.p += q.p; p.r = e.cv.add(&p.r, &q.r) }
    }
}

/// A point in a random projective representation.
pub fn gen_pt<C: EdwardsCurve>(r: &mut Rng, e: &Env) -> Sp<C> where C::Scalar: Fld {
    let a = ref_pick(r, e);
    match r.below(6) {
        0 | 1 => mk::<C>(r, e, &a),
        2 => if r.one_in(6) { Sp { p: Pt::<C>::zero(), r: e.cv.id() } } else { mk::<C>(r, e, &a) },
        3 => { let b = ref_pick(r, e); let (p, q) = (mk::<C>(r, e, &a), mk::<C>(r, e, &b)); Sp { p: p.p + q.p, r: e.cv.add(&p.r, &q.r) } }
        4 => {
            // whatever a history of operations leaves in a register
            let mut p = mk::<C>(r, e, &a);
            for _ in 0..1 + r.below(3) { step(r, e, &mut p); }
            p
        }
        _ => {
            // same point as `a`, reached as (a - b) + b
            let b = ref_pick(r, e);
            let nb = (e.cv.f.neg(&b.0), b.1);
            let (p, q, s) = (mk::<C>(r, e, &a), mk::<C>(r, e, &nb), mk::<C>(r, e, &b));
            Sp { p: (p.p + q.p) + s.p, r: p.r }
        }
    }
}

/// The images of (x, y) under negation and the points of order four: all made
/// of the same two coordinates, up to sign and order.
pub fn image(f: &Fp, a: &(W, W), k: usize) -> (W, W) {
    let (x, y) = if k & 4 != 0 { (a.1, a.0) } else { *a };
    (if k & 1 != 0 { f.neg(&x) } else { x }, if k & 2 != 0 { f.neg(&y) } else { y })
}

/// A point derived from `a` by a fixed short sequence (`b` where it needs
/// another point): the same sequences on images of a point, or sequences for the
/// same multiple, leave projective coordinates that coincide up to sign.
pub fn derive<C: EdwardsCurve>(r: &mut Rng, e: &Env, a: &(W, W), b: &(W, W), how: usize) -> Sp<C> where C::Scalar: Fld {
    let p = mk::<C>(r, e, a);
    let two = e.cv.add(&p.r, &p.r);
    let mut add = |a: Pt<C>, b: &Pt<C>| if r.bool() { a + *b } else { let mut a = a; a += b; a };
    match how {
        0 => p,
        1 => Sp { p: p.p.doubled(), r: two },
        2 => Sp { p: add(p.p, &p.p), r: two },
        3 => Sp { p: p.p.tripled(), r: e.cv.add(&two, &p.r) },
        4 => Sp { p: add(p.p.doubled(), &p.p), r: e.cv.add(&two, &p.r) },
        5 => { let q = mk::<C>(r, e, b); let s = if r.bool() { p.p + q.p } else { let mut a = p.p; a += &q.p; a }; Sp { p: s, r: e.cv.add(&p.r, &q.r) } }
        6 => { let q = add(p.p, &p.p); Sp { p: add(q, &q), r: e.cv.add(&two, &two) } }
        _ => Sp { p: p.p.doubled().doubled(), r: e.cv.add(&two, &two) },
    }
}
/// Sequences in whose results coordinates coincide.
const ALIKE: [[usize; 2]; 9] = [[0, 0], [1, 1], [1, 2], [2, 1], [3, 4], [3, 3], [5, 5], [6, 7], [7, 7]];

pub fn obs_pt<C: EdwardsCurve>(p: &Pt<C>) -> RPt where C::Scalar: Fld {
    let (x, y, z) = p.vp_coords();
    RPt { x: obs(&x), y: obs(&y), z: obs(&z) }
}

pub fn show_pt(e: &Env, p: &RPt) -> String {
    let (x, y) = to_aff(e.cv.f, p);
    format!("(0x{}, 0x{})", w_hex(&x), w_hex(&y))
}

/// Oracle: the observed projective point is the reference point.
pub fn expect_pt<C: EdwardsCurve>(st: &mut Stats, e: &Env, what: &str, got: &Pt<C>, want: &RPt, ctx: &dyn Fn() -> String) -> Res
where C::Scalar: Fld {
    st.checks += 1;
    let g = obs_pt(got);
    st.transcript = hash_words(&[st.transcript, hash_words(&g.x), hash_words(&g.y), hash_words(&g.z)]);
    if e.cv.eq(&g, want) { return Ok(()); }
    let shown = if w_is_zero(&g.z) { "a degenerate point (Z = 0)".into() } else { show_pt(e, &g) };
    Err(format!("{} on {}: got {}{} want {} [{}]", what, e.name, shown,
        if e.cv.on_curve(&g) { "" } else { " (not on the curve)" }, show_pt(e, want), ctx()))
}

/// The point, and its behaviour in the next operation.
pub fn expect_live<C: EdwardsCurve>(r: &mut Rng, st: &mut Stats, e: &Env, what: &str, got: &Pt<C>, want: &RPt, ctx: &dyn Fn() -> String) -> Res
where C::Scalar: Fld {
    expect_pt(st, e, what, got, want, ctx)?;
    match r.below(8) {
        0 | 1 => return expect_pt(st, e, &format!("{} then doubled", what), &got.doubled(), &e.cv.add(want, want), ctx),
        2 => return expect_pt(st, e, &format!("{} then tripled", what), &got.tripled(), &e.cv.add(&e.cv.add(want, want), want), ctx),
        _ => {}
    }
    let q = { let a = ref_pick(r, e); mk::<C>(r, e, &a) };
    let sum = if r.bool() { *got + q.p } else { q.p + *got };
    expect_pt(st, e, &format!("{} then + Q", what), &sum, &e.cv.add(want, &q.r), ctx)
}

pub fn note_pt<C: EdwardsCurve>(st: &mut Stats, e: &Env, tag: &str, ps: &[&Sp<C>], extra: u64) where C::Scalar: Fld {
    st.cases += 1;
    let mut ws = vec![hash_str(tag), hash_str(&e.name), extra];
    let mut nt = true;
    for s in ps {
        let g = obs_pt(&s.p);
        ws.extend_from_slice(&g.x);
        ws.extend_from_slice(&g.y);
        ws.extend_from_slice(&g.z);
        if e.cv.is_id(&s.r) { nt = false; st.ev("identity operands", 1) }
        else if w_is_zero(&s.r.x) || w_is_zero(&s.r.y) { st.ev("torsion operands", 1) }
        if g.z != w_u64(1) { st.ev("operands with Z != 1", 1) } else { st.ev("operands with Z = 1", 1) }
    }
    st.fp(hash_words(&ws), nt);
}

pub fn c01<C: EdwardsCurve>(r: &mut Rng, e: &Env, st: &mut Stats) -> Res where C::Scalar: Fld {
    let p = gen_pt::<C>(r, e);
    let mut p = p;
    let (q, rel) = match r.below(10) {
        8 | 9 => { // operands that share coordinates
            let (a, b) = (ref_pick(r, e), ref_pick(r, e));
            let i = image(e.cv.f, &a, r.below(8));
            let how = ALIKE[r.below(ALIKE.len())];
            p = derive::<C>(r, e, &a, &b, how[0]);
            (derive::<C>(r, e, &i, &b, how[1]), "P+image")
        }
        0 => (Sp { p: p.p, r: p.r }, "P+P"),
        1 => { // the same point in another representation
            let a = to_aff(e.cv.f, &p.r); (mk::<C>(r, e, &a), "P+P'") }
        2 => { let a = to_aff(e.cv.f, &e.cv.neg(&p.r)); (mk::<C>(r, e, &a), "P+(-P)") }
        3 => { let t = e.pool[r.below(e.ntors)]; (mk::<C>(r, e, &t), "P+torsion") }
        4 => (Sp { p: Pt::<C>::zero(), r: e.cv.id() }, "P+0"),
        _ => (gen_pt::<C>(r, e), "P+Q"),
    };
    st.ev(rel, 1);
    note_pt(st, e, "add", &[&p, &q], 0);
    let ctx = || format!("{}: P = {}, Q = {}", rel, show_pt(e, &p.r), show_pt(e, &q.r));
    let want = e.cv.add(&p.r, &q.r);
    let s = p.p + q.p;
    expect_live(r, st, e, "P+Q", &s, &want, &ctx)?;
    expect_pt(st, e, "Q+P", &(q.p + p.p), &want, &ctx)?;
    expect_pt(st, e, "&P+&Q", &(&p.p + &q.p), &want, &ctx)?;
    let mut a = p.p;
    a += q.p;
    expect_pt(st, e, "P+=Q", &a, &want, &ctx)?;
    let mut a = p.p;
    a += &q.p;
    expect_pt(st, e, "P+=&Q", &a, &want, &ctx)?;
    let w = gen_pt::<C>(r, e);
    let want3 = e.cv.add(&want, &w.r);
    expect_pt(st, e, "(P+Q)+R", &(s + w.p), &want3, &ctx)?;
    expect_pt(st, e, "P+(Q+R)", &(p.p + (q.p + w.p)), &want3, &ctx)?;
    st.sample(|| format!("{} : {}", e.name, ctx()));
    Ok(())
}

pub fn c02<C: EdwardsCurve>(r: &mut Rng, e: &Env, st: &mut Stats) -> Res where C::Scalar: Fld {
    let p = gen_pt::<C>(r, e);
    note_pt(st, e, "double", &[&p], 0);
    let ctx = || format!("P = {}", show_pt(e, &p.r));
    let mut want = e.cv.add(&p.r, &p.r);
    let d = p.p.doubled();
    expect_live(r, st, e, "doubled", &d, &want, &ctx)?;
    let mut i = p.p;
    i.double();
    expect_live(r, st, e, "double in place", &i, &want, &ctx)?;
    expect_pt(st, e, "P+P", &(p.p + p.p), &want, &ctx)?;
    for k in 0..1 + r.below(6) {
        i.double();
        want = e.cv.add(&want, &want);
        expect_pt(st, e, &format!("doubled {} more times", k + 1), &i, &want, &ctx)?;
    }
    expect_live(r, st, e, "repeated doubling", &i, &want, &ctx)?;
    expect_pt(st, e, "operand after doubled()", &p.p, &p.r, &ctx)?;
    st.sample(|| format!("{} : 2P with {}", e.name, ctx()));
    Ok(())
}

pub fn c03<C: EdwardsCurve>(r: &mut Rng, e: &Env, st: &mut Stats) -> Res where C::Scalar: Fld {
    let p = gen_pt::<C>(r, e);
    note_pt(st, e, "triple", &[&p], 0);
    let ctx = || format!("P = {}", show_pt(e, &p.r));
    let mut want = e.cv.add(&e.cv.add(&p.r, &p.r), &p.r);
    let d = p.p.tripled();
    expect_live(r, st, e, "tripled", &d, &want, &ctx)?;
    let mut i = p.p;
    i.triple();
    expect_live(r, st, e, "triple in place", &i, &want, &ctx)?;
    for k in 0..1 + r.below(4) {
        if r.bool() { i.triple(); want = e.cv.add(&e.cv.add(&want, &want), &want); }
        else { i.double(); want = e.cv.add(&want, &want); }
        expect_pt(st, e, &format!("tripled/doubled {} more times", k + 1), &i, &want, &ctx)?;
    }
    expect_live(r, st, e, "repeated tripling", &i, &want, &ctx)?;
    expect_pt(st, e, "operand after tripled()", &p.p, &p.r, &ctx)?;
    st.sample(|| format!("{} : 3P with {}", e.name, ctx()));
    Ok(())
}

pub fn gen_scalar<F: Fld>(r: &mut Rng, f: &Fp, order: &Option<W>) -> W {
    match r.below(8) {
        0 => w_u64(r.below(20) as u64),
        1 => if let Some(l) = order {
            let d = w_u64(r.below(4) as u64);
            let k = f.red(&(if r.bool() { w_add(l, &d) } else { w_sub(l, &d) }));
            if r.bool() { f.add(&k, &k) } else { k }
        } else { gen_w::<F>(r, f).0 },
        2 => { let k = w_pow2(r.below(F::N)); f.red(&k) }
        3 => f.red(&w_sub(&w_pow2(1 + r.below(F::N)), &w_u64(1))),
        _ => gen_w::<F>(r, f).0,
    }
}

pub fn c04<C: EdwardsCurve>(r: &mut Rng, e: &Env, st: &mut Stats) -> Res where C::Scalar: Fld {
    let f = e.cv.f;
    let p = gen_pt::<C>(r, e);
    let w = gen_scalar::<C::Scalar>(r, f, &e.order);
    let k = if r.bool() { rerep::<C::Scalar>(r, f, &w) } else { Sv { v: from_w(&w), r: w } };
    note_pt(st, e, "mult", &[&p], hash_words(&w));
    let ctx = || format!("k: {}, P = {}", show(&k), show_pt(e, &p.r));
    let want = e.cv.mulk(&w, &p.r);
    if e.cv.is_id(&want) { st.ev("result is the identity", 1); }
    let mut kv = k.v;
    let mut a = p.p;
    a.scalar_mult(&mut kv);
    expect_live(r, st, e, "k*P", &a, &want, &ctx)?;
    expect(st, "scalar after use", &kv, &w, &ctx)?;
    let mut kn = k.v;
    kn.normalize();
    let mut b = p.p;
    b.scalar_mult_normalized(&kn);
    expect_pt(st, e, "k*P (normalised scalar)", &b, &want, &ctx)?;
    if r.one_in(4) {
        // back to back with a scalar that differs in one word, and with the
        // negated point
        let w2 = sibling::<C::Scalar>(r, f, &w);
        let mut k2 = rerep::<C::Scalar>(r, f, &w2).v;
        let mut c = p.p;
        c.scalar_mult(&mut k2);
        expect_pt(st, e, "k'*P after k*P", &c, &e.cv.mulk(&w2, &p.r), &|| format!("k' = 0x{}; {}", w_hex(&w2), ctx()))?;
        let n = to_aff(f, &e.cv.neg(&p.r));
        let mut c = mk::<C>(r, e, &n).p;
        let mut kv = k.v;
        c.scalar_mult(&mut kv);
        expect_pt(st, e, "k*(-P) after k*P", &c, &e.cv.neg(&want), &ctx)?;
        st.ev("neighbouring operands back to back", 1);
    } else if r.one_in(2) {
        // (k+1)P = kP + P, crossing representations
        let one = w_u64(1);
        if w_cmp(&w_add(&w, &one), &f.p) == std::cmp::Ordering::Less {
            let mut k1 = k.v + <C::Scalar as safecurves_rust::field::prime_field::PrimeField>::one();
            let mut c = a; // use the result as the receiver of the next call
            c += p.p;
            let mut d = p.p;
            d.scalar_mult(&mut k1);
            let wd = e.cv.add(&want, &p.r);
            expect_pt(st, e, "kP + P", &c, &wd, &ctx)?;
            expect_pt(st, e, "(k+1)P", &d, &wd, &ctx)?;
        }
    } else {
        // multiply the product again
        let w2 = gen_scalar::<C::Scalar>(r, f, &e.order);
        let mut k2 = rerep::<C::Scalar>(r, f, &w2).v;
        a.scalar_mult(&mut k2);
        expect_pt(st, e, "k2*(k*P)", &a, &e.cv.mulk(&w2, &want), &ctx)?;
    }
    st.sample(|| format!("{} : kP with {}", e.name, ctx()));
    Ok(())
}

pub fn c05<C: EdwardsCurve>(r: &mut Rng, e: &Env, st: &mut Stats) -> Res where C::Scalar: Fld {
    const REGS: usize = 5;
    let f = e.cv.f;
    let mut regs: Vec<Sp<C>> = if r.one_in(4) {
        // all related to one another
        let (a, b) = (ref_pick(r, e), ref_pick(r, e));
        (0..REGS).map(|_| { let i = image(f, &a, r.below(8)); let how = r.below(8); derive::<C>(r, e, &i, &b, how) }).collect()
    } else { (0..REGS).map(|_| gen_pt::<C>(r, e)).collect() };
    let refs: Vec<&Sp<C>> = regs.iter().collect();
    note_pt(st, e, "history", &refs, r.clone().u64());
    let steps = 10 + r.below(60);
    let mut log: Vec<String> = Vec::new();
    for k in 0..steps {
        let (d, s, t) = (r.below(REGS), r.below(REGS), r.below(REGS));
        let (x, y) = (regs[s], regs[t]);
        let kind = r.below(12);
        let (z, n) = match kind {
            0 | 1 => (Sp { p: x.p + y.p, r: e.cv.add(&x.r, &y.r) }, "add"),
            2 | 3 => { let mut p = x.p; p += &y.p; (Sp { p, r: e.cv.add(&x.r, &y.r) }, "add-assign") }
            4 => (Sp { p: x.p + x.p, r: e.cv.add(&x.r, &x.r) }, "self-add"),
            5 => (Sp { p: x.p.doubled(), r: e.cv.add(&x.r, &x.r) }, "double"),
            6 => (Sp { p: x.p.tripled(), r: e.cv.add(&e.cv.add(&x.r, &x.r), &x.r) }, "triple"),
            7 => { let mut p = x.p; p.double(); p.triple(); let r2 = e.cv.add(&x.r, &x.r); (Sp { p, r: e.cv.add(&e.cv.add(&r2, &r2), &r2) }, "double;triple") }
            8 => { // re-initialise a used register
                let a = ref_pick(r, e);
                let s = mk::<C>(r, e, &a);
                let mut p = x.p;
                p.init(from_w::<C::Scalar>(&a.0), from_w::<C::Scalar>(&a.1));
                (Sp { p, r: s.r }, "init") }
            9 => (Sp { p: Pt::<C>::zero(), r: e.cv.id() }, "zero"),
            10 => { let g = obs_pt(&x.p); // leave and re-enter through affine coordinates
                let a = to_aff(f, &g);
                (Sp { p: mk::<C>(r, e, &a).p, r: x.r }, "affine round trip") }
            _ => if r.one_in(8) {
                let w = gen_scalar::<C::Scalar>(r, f, &e.order);
                let mut kv = rerep::<C::Scalar>(r, f, &w).v;
                let mut p = x.p;
                p.scalar_mult(&mut kv);
                (Sp { p, r: e.cv.mulk(&w, &x.r) }, "mult")
            } else { (Sp { p: x.p + y.p, r: e.cv.add(&x.r, &y.r) }, "add") },
        };
        st.ev(n, 1);
        log.push(format!("r{}={}(r{},r{})", d, n, s, t));
        regs[d] = z;
        st.checks += 1;
        let g = obs_pt(&regs[d].p);
        if !e.cv.on_curve(&g) { return Err(format!("step {}: left the curve {} [{:?}]", k, e.name, log)); }
        expect_pt(st, e, "register", &regs[d].p, &regs[d].r, &|| format!("step {} of {:?}", k, log))?;
    }
    for i in 0..REGS { expect_live(r, st, e, "register at the end", &regs[i].p, &regs[i].r, &|| format!("after {:?}", log))?; }
    st.sample(|| format!("{} : {} steps, e.g. {}", e.name, steps, log[..log.len().min(8)].join("; ")));
    Ok(())
}

pub fn c07<C: EdwardsCurve>(r: &mut Rng, e: &Env, st: &mut Stats) -> Res where C::Scalar: Fld {
    let f = e.cv.f;
    let a = ref_pick(r, e);
    let (x, y) = (rerep::<C::Scalar>(r, f, &a.0), rerep::<C::Scalar>(r, f, &a.1));
    let want = e.cv.aff(&a.0, &a.1);
    let old = gen_pt::<C>(r, e);
    let mut p = old.p;
    p.init(x.v, y.v);
    note_pt(st, e, "init", &[&Sp { p, r: want }, &old], 0);
    let ctx = || format!("init over {} with x: {} y: {}", show_pt(e, &old.r), show(&x), show(&y));
    expect_live(r, st, e, "init(x, y)", &p, &want, &ctx)?;
    let z = Pt::<C>::zero();
    expect_live(r, st, e, "zero()", &z, &e.cv.id(), &ctx)?;
    expect_pt(st, e, "P + 0", &(p + z), &want, &ctx)?;
    expect_pt(st, e, "0 + P", &(z + p), &want, &ctx)?;
    expect_pt(st, e, "0 + 0", &(z + z), &e.cv.id(), &ctx)?;
    expect_pt(st, e, "2 * 0", &z.doubled(), &e.cv.id(), &ctx)?;
    expect_pt(st, e, "3 * 0", &z.tripled(), &e.cv.id(), &ctx)?;
    let mut n = Pt::<C>::zero();
    n.init(rerep::<C::Scalar>(r, f, &f.neg(&a.0)).v, y.v);
    expect_pt(st, e, "P + (-P)", &(p + n), &e.cv.id(), &ctx)?;
    expect_pt(st, e, "old + P", &(old.p + p), &e.cv.add(&old.r, &want), &ctx)?;
    expect_pt(st, e, "2P", &p.doubled(), &e.cv.add(&want, &want), &ctx)?;
    st.sample(|| format!("{} : {}", e.name, ctx()));
    Ok(())
}

// ---- whole protocols -------------------------------------------------------

/// a * b mod l, bit by bit.
pub fn mulmod(a: &W, b: &W, l: &W) -> W {
    let red = |x: W| if w_cmp(&x, l) != std::cmp::Ordering::Less { w_sub(&x, l) } else { x };
    let mut r = Z;
    for i in (0..w_bits(a)).rev() {
        r = red(w_add(&r, &r));
        if w_bit(a, i) { r = red(w_add(&r, b)); }
    }
    r
}

/// What a user of the library does to send a point: affine coordinates by field
/// division, y as bytes and one bit of x.
pub fn encode<C: EdwardsCurve>(r: &mut Rng, p: &Pt<C>) -> (Vec<u8>, bool) where C::Scalar: Fld {
    let (x, y, z) = p.vp_coords();
    let (mut ax, mut ay) = if r.bool() { (C::Scalar::div_r(&x, &z), C::Scalar::div_r(&y, &z)) }
        else { let i = z.inverted(); (C::Scalar::mul_r(&x, &i), C::Scalar::mul_r(&i, &y)) };
    let b = if r.bool() { ay.packed_vec() } else { ay.normalize(); let mut b = vec![0xa5u8; C::Scalar::NB]; ay.pack_normalized(&mut b); b };
    let s = if r.bool() { ax.bit(0) } else { ax.normalize(); ax.bit_normalized(0) };
    (b, s)
}

/// And to receive one: solve the curve equation for x.  None where there is no
/// such point.
pub fn decode<C: EdwardsCurve>(r: &mut Rng, b: &[u8], sign: bool) -> Result<Option<(C::Scalar, C::Scalar)>, String> where C::Scalar: Fld {
    let y = C::Scalar::unpacked(b);
    let y2 = if r.bool() { y.squared() } else { C::Scalar::mul_r(&y, &y) };
    let one = C::Scalar::one();
    let u = if r.bool() { C::Scalar::sub_r(&one, &y2) } else { y2.small_sub(1).small_mul(-1) };
    let v = { let mut v = C::d_val(); C::Scalar::mul_ar(&mut v, &y2); C::Scalar::sub_r(&one, &v) };
    let w = C::Scalar::div_r(&u, &v);
    let mut l = w.legendre();
    let mut x = w.sqrt();
    if l.normalize_eq(&mut C::Scalar::m_one()) {
        let mut s = x.squared();
        if s.normalize_self_eq(&{ let mut w = w; w.normalize(); w }) { return Err(format!("0x{} has a root and is called a non-square", w_hex(&obs(&w)))); }
        return Ok(None);
    }
    let mut s = x.squared();
    let mut w = w;
    if !s.normalize_eq(&mut w) { return Err(format!("0x{} is called a square and the root is none", w_hex(&obs(&w)))); }
    if x.bit(0) != sign {
        x = if r.bool() { C::Scalar::sub_r(&C::Scalar::zero(), &x) } else { x.small_mul(-1) };
    }
    Ok(Some((x, y)))
}

fn fresh<C: EdwardsCurve>(a: &(C::Scalar, C::Scalar)) -> Pt<C> {
    let mut p = Pt::<C>::zero();
    p.init(a.0, a.1);
    p
}

fn mul<C: EdwardsCurve>(r: &mut Rng, f: &Fp, k: &W, p: &Pt<C>) -> Pt<C> where C::Scalar: Fld {
    let mut kv = if r.bool() { from_w::<C::Scalar>(k) } else { rerep::<C::Scalar>(r, f, k).v };
    let mut p = *p;
    if r.one_in(3) { kv.normalize(); p.scalar_mult_normalized(&kv) } else { p.scalar_mult(&mut kv) }
    p
}

/// Sends a point through its encoding; the bytes and the point received are
/// those of the reference.
fn transmit<C: EdwardsCurve>(r: &mut Rng, e: &Env, st: &mut Stats, what: &str, p: &Pt<C>, want: &RPt, ctx: &dyn Fn() -> String) -> Result<Pt<C>, String>
where C::Scalar: Fld {
    let f = e.cv.f;
    let a = to_aff(f, want);
    let (b, s) = encode::<C>(r, p);
    st.checks += 1;
    st.transcript = hash_words(&[st.transcript, hash_words(&w_from_le(&b)), s as u64]);
    if b != w_to_le(&a.1, C::Scalar::NB) || s != w_bit(&a.0, 0) {
        return Err(format!("{} on {}: encoded as {:02x?}/{} want {} [{}]", what, e.name, b, s as u8, show_pt(e, want), ctx()));
    }
    match decode::<C>(r, &b, s)? {
        None => Err(format!("{} on {}: the encoding of {} was refused [{}]", what, e.name, show_pt(e, want), ctx())),
        Some(a) => {
            // x = 0 has one sign only, which the encoding of x = 0 always has
            let q = fresh::<C>(&a);
            expect_pt(st, e, &format!("{}, decoded", what), &q, want, ctx)?;
            Ok(q)
        }
    }
}

pub fn s01<C: EdwardsCurve>(r: &mut Rng, e: &Env, st: &mut Stats) -> Res where C::Scalar: Fld {
    let f = e.cv.f;
    let p = gen_pt::<C>(r, e);
    match r.below(8) {
        0 | 1 | 2 => {
            note_pt(st, e, "transmit", &[&p], 0);
            st.ev("points encoded and decoded", 1);
            let ctx = || format!("P = {}", show_pt(e, &p.r));
            let q = transmit::<C>(r, e, st, "P", &p.p, &p.r, &ctx)?;
            let s = q + p.p;
            transmit::<C>(r, e, st, "decoded P + P", &s, &e.cv.add(&p.r, &p.r), &ctx)?;
            // the opposite sign is -P
            let (b, sign) = encode::<C>(r, &p.p);
            if !w_is_zero(&p.r.x) {
                match decode::<C>(r, &b, !sign)? {
                    Some(a) => { let n = fresh::<C>(&a); expect_pt(st, e, "-P, decoded", &n, &e.cv.neg(&p.r), &ctx)?; expect_pt(st, e, "P + decoded -P", &(p.p + n), &e.cv.id(), &ctx)?; }
                    None => return Err(format!("the encoding of -P was refused on {} [{}]", e.name, ctx())),
                }
            }
            st.sample(|| format!("{} : encode and decode {}", e.name, ctx()));
        }
        3 | 4 => {
            // any y is accepted exactly where a point has it
            let (mut y, _) = gen_w::<C::Scalar>(r, f);
            if r.one_in(3) {
                // a y whose x^2, if it is one, is a hostile residue
                let den = f.sub(&w_u64(1), &f.mul(&e.cv.d, &y));
                if !w_is_zero(&den) { if let Some(z) = f.sqrt(&f.mul(&f.sub(&w_u64(1), &y), &f.inv(&den))) { y = z; } }
            }
            st.cases += 1;
            st.fp(hash_words(&[hash_str("decode"), hash_str(&e.name), hash_words(&y)]), true);
            let sign = r.bool();
            let want = e.cv.lift_y(&y, false);
            let got = decode::<C>(r, &w_to_le(&y, C::Scalar::NB), sign)?;
            st.checks += 1;
            st.transcript = hash_words(&[st.transcript, got.is_some() as u64]);
            st.ev(if want.is_some() { "coordinates of points decoded" } else { "coordinates of no point refused" }, 1);
            match (got, want) {
                (None, None) => {}
                (Some(a), Some((x, _))) => {
                    let x = if w_bit(&x, 0) != sign { f.neg(&x) } else { x };
                    let p = fresh::<C>(&a);
                    expect_live(r, st, e, "decoded", &p, &e.cv.aff(&x, &y), &|| format!("y = 0x{}", w_hex(&y)))?;
                }
                (g, w) => return Err(format!("y = 0x{} on {}: decoded {} but the curve has {} such point", w_hex(&y), e.name, g.is_some(), if w.is_some() { "a" } else { "no" })),
            }
        }
        5 => {
            // key agreement: both sides end with the same bytes, those of abP
            let (a, b) = (gen_scalar::<C::Scalar>(r, f, &e.order), gen_scalar::<C::Scalar>(r, f, &e.order));
            note_pt(st, e, "agree", &[&p], hash_words(&[hash_words(&a), hash_words(&b)]));
            st.ev("key agreements", 1);
            let ctx = || format!("a = 0x{}, b = 0x{}, P = {}", w_hex(&a), w_hex(&b), show_pt(e, &p.r));
            let (ra, rb) = (e.cv.mulk(&a, &p.r), e.cv.mulk(&b, &p.r));
            let pa = mul::<C>(r, f, &a, &p.p);
            let pa = transmit::<C>(r, e, st, "aP", &pa, &ra, &ctx)?;
            let pb = mul::<C>(r, f, &b, &p.p);
            let pb = transmit::<C>(r, e, st, "bP", &pb, &rb, &ctx)?;
            let want = e.cv.mulk(&a, &rb);
            let (ka, kb) = (mul::<C>(r, f, &a, &pb), mul::<C>(r, f, &b, &pa));
            transmit::<C>(r, e, st, "a(bP)", &ka, &want, &ctx)?;
            transmit::<C>(r, e, st, "b(aP)", &kb, &want, &ctx)?;
            if encode::<C>(r, &ka) != encode::<C>(r, &kb) { return Err(format!("the two sides differ on {} [{}]", e.name, ctx())); }
            st.sample(|| format!("{} : agreement with {}", e.name, ctx()));
        }
        _ => match (e.order, e.base) {
            (Some(l), Some(bp)) => {
                // a Schnorr equation: sB = R + eA with s = r + ea mod l
                let red = |w: W| { let mut w = w; while w_cmp(&w, &l) != std::cmp::Ordering::Less { w = w_sub(&w, &l); } w };
                let (a, k, h) = (red(gen_scalar::<C::Scalar>(r, f, &e.order)), red(gen_scalar::<C::Scalar>(r, f, &e.order)), red(gen_scalar::<C::Scalar>(r, f, &e.order)));
                let b = mk::<C>(r, e, &bp);
                note_pt(st, e, "schnorr", &[&b], hash_words(&[hash_words(&a), hash_words(&k), hash_words(&h)]));
                st.ev("signature equations", 1);
                let ctx = || format!("a = 0x{}, r = 0x{}, e = 0x{}", w_hex(&a), w_hex(&k), w_hex(&h));
                let s = red(w_add(&k, &mulmod(&h, &a, &l)));
                let (ra, rr) = (e.cv.mulk(&a, &b.r), e.cv.mulk(&k, &b.r));
                let pa = mul::<C>(r, f, &a, &b.p);
                let pa = transmit::<C>(r, e, st, "A = aB", &pa, &ra, &ctx)?;
                let pr = mul::<C>(r, f, &k, &b.p);
                let pr = transmit::<C>(r, e, st, "R = rB", &pr, &rr, &ctx)?;
                let left = mul::<C>(r, f, &s, &b.p);
                let ea = mul::<C>(r, f, &h, &pa);
                let right = pr + ea;
                let want = e.cv.mulk(&s, &b.r);
                transmit::<C>(r, e, st, "sB", &left, &want, &ctx)?;
                transmit::<C>(r, e, st, "R + eA", &right, &want, &ctx)?;
                st.sample(|| format!("{} : sB = R + eA with {}", e.name, ctx()));
            }
            _ => {
                // one inversion for the affine forms of many points
                let n = 2 + r.below(6);
                let ps: Vec<Sp<C>> = (0..n).map(|_| gen_pt::<C>(r, e)).collect();
                let refs: Vec<&Sp<C>> = ps.iter().collect();
                note_pt(st, e, "batch", &refs, 0);
                st.ev("batches made affine with one inversion", 1);
                let ctx = || format!("{} points, first {}", n, show_pt(e, &ps[0].r));
                let c: Vec<_> = ps.iter().map(|p| p.p.vp_coords()).collect();
                let mut pre = vec![c[0].2];
                for i in 1..n { let m = C::Scalar::mul_r(&pre[i - 1], &c[i].2); pre.push(m); }
                let mut inv = pre[n - 1].inverted();
                for i in (0..n).rev() {
                    let zi = if i == 0 { inv } else { C::Scalar::mul_r(&inv, &pre[i - 1]) };
                    C::Scalar::mul_ar(&mut inv, &c[i].2);
                    let q = fresh::<C>(&(C::Scalar::mul_r(&c[i].0, &zi), C::Scalar::mul_r(&c[i].1, &zi)));
                    expect_pt(st, e, "affine form of a batch", &q, &ps[i].r, &ctx)?;
                    expect_pt(st, e, "P + its affine form", &(ps[i].p + q), &e.cv.add(&ps[i].r, &ps[i].r), &ctx)?;
                }
                st.sample(|| format!("{} : batch of {}", e.name, ctx()));
            }
        },
    }
    Ok(())
}
