//! K01: observes every published constant through the public API, and what the
//! code under test makes of it; prints facts, judged by check.py with Python
//! integers against the published parameters.
use crate::*;
use safecurves_rust::field::prime_field::PrimeField;
use safecurves_rust::curve::point::Point;
use safecurves_rust::normalize::*;
use safecurves_rust::curve::edwards::{EdwardsCurve, EdwardsExtended};

fn show<F: Fld>(name: &str, v: F) {
    let mut raw = vec![0u8; F::NB];
    v.pack_normalized(&mut raw);
    println!("const {} {} {} {}", F::NAME, name, w_hex(&w_from_le(&raw)), w_hex(&obs(&v)));
}

fn fact(name: &str, what: &str, ok: bool) { println!("fact {} {} {}", name, what, ok as u8); }

fn common<F: Fld>() {
    show::<F>("ZERO", F::c_zero());
    show::<F>("ONE", F::c_one());
    show::<F>("M_ONE", F::c_m_one());
    show::<F>("MODULUS", F::c_modulus());
    show::<F>("zero()", F::zero());
    show::<F>("one()", F::one());
    show::<F>("m_one()", F::m_one());
    show::<F>("modulus()", F::modulus());
    let eq = |a: F, b: F| { let (mut a, mut b) = (a, b); a.normalize_eq(&mut b) };
    fact(F::NAME, "one+m_one=zero", eq(F::c_one() + F::c_m_one(), F::c_zero()));
    fact(F::NAME, "modulus=zero", eq(F::c_modulus(), F::c_zero()));
    fact(F::NAME, "m_one*m_one=one", eq(F::c_m_one() * F::c_m_one(), F::c_one()));
    fact(F::NAME, "modulus*modulus=zero", eq(F::c_modulus() * F::c_modulus(), F::c_zero()));
    println!("size {} {} {}", F::NAME, F::nbits(), F::nbytes());
}

fn half<F: Fld>(v: F) {
    show::<F>("M_HALF", v);
    let (mut a, mut b) = (v + v, F::c_m_one());
    fact(F::NAME, "2*m_half=m_one", a.normalize_eq(&mut b));
}

/// y^2 = x^3 + A x^2 + x, and order * base = infinity by an x-only ladder, all
/// in the arithmetic of the code under test.
fn montgomery<F: Fld>(name: &str, a: i32, x: F, y: F, order: F) {
    show::<F>(&format!("{}_BASE_X", name), x);
    show::<F>(&format!("{}_BASE_Y", name), y);
    show::<F>(&format!("{}_ORDER", name), order);
    let mut l = y.squared();
    let mut r = x.squared() * x + x.squared() * a + x;
    fact(name, "base on the curve", l.normalize_eq(&mut r));
    let a24 = F::zero().small_add(a + 2) / F::zero().small_add(4);
    let (mut x2, mut z2, mut x3, mut z3) = (F::one(), F::zero(), x, F::one());
    let mut k = order;
    for i in (0..F::nbits()).rev() {
        let bit = k.bit(i);
        if bit { std::mem::swap(&mut x2, &mut x3); std::mem::swap(&mut z2, &mut z3); }
        let (aa, bb) = ((x2 + z2).squared(), (x2 - z2).squared());
        let e = aa - bb;
        let da = (x3 - z3) * (x2 + z2);
        let cb = (x3 + z3) * (x2 - z2);
        x3 = (da + cb).squared();
        z3 = x * (da - cb).squared();
        x2 = aa * bb;
        z2 = e * (bb + a24 * e);
        if bit { std::mem::swap(&mut x2, &mut x3); std::mem::swap(&mut z2, &mut z3); }
    }
    let mut zero = F::zero();
    fact(name, "order*base=infinity", z2.normalize_eq(&mut zero));
    // the neighbour multiple is -base or base: same x
    let (mut p, mut q) = (x3, x * z3);
    fact(name, "(order+1)*base=+-base", p.normalize_eq(&mut q));
}

fn edwards<C: EdwardsCurve>(name: &str, d: C::Scalar, x: C::Scalar, y: C::Scalar, order: C::Scalar)
where C::Scalar: Fld {
    show::<C::Scalar>(&format!("{}_D", name), d);
    show::<C::Scalar>(&format!("{}_BASE_X", name), x);
    show::<C::Scalar>(&format!("{}_BASE_Y", name), y);
    show::<C::Scalar>(&format!("{}_ORDER", name), order);
    show::<C::Scalar>(&format!("{}::d_val()", name), C::d_val());
    let one = <C::Scalar as PrimeField>::one();
    let (x2, y2) = (x.squared(), y.squared());
    let (mut l, mut r) = (x2 + y2, one + d * x2 * y2);
    fact(name, "base on the curve", l.normalize_eq(&mut r));
    let mut m1 = <C::Scalar as PrimeField>::m_one();
    fact(name, "d is not a square", d.legendre().normalize_eq(&mut m1));
    let mut p = EdwardsExtended::<C>::zero();
    p.init(x, y);
    let b = p;
    let mut k = order;
    p.scalar_mult(&mut k);
    let show_pt = |p: &EdwardsExtended<C>, what: &str| {
        let g = obs_pt(p);
        println!("point {} {} {} {} {}", name, what, w_hex(&g.x), w_hex(&g.y), w_hex(&g.z));
    };
    show_pt(&p, "order*base");
    let mut q = b;
    let mut k = order + one;
    q.scalar_mult(&mut k);
    show_pt(&q, "(order+1)*base");
    let mut q = b;
    let mut k = order - one;
    q.scalar_mult(&mut k);
    show_pt(&q, "(order-1)*base");
    show_pt(&b, "base");
}

pub fn dump() {
    use safecurves_rust::field::*;
    for n in FIELDS { with_field!(n, F, common::<F>()); }
    half(mod_e221_3::M_HALF);
    half(mod_e255_19::M_HALF);
    half(mod_e383_187::M_HALF);
    half(mod_e511_187::M_HALF);
    montgomery("M221", 117050, mod_e221_3::M221_BASE_X, mod_e221_3::M221_BASE_Y, mod_e221_3::M221_ORDER);
    montgomery("CURVE25519", 486662, mod_e255_19::CURVE25519_BASE_X, mod_e255_19::CURVE25519_BASE_Y, mod_e255_19::CURVE25519_ORDER);
    montgomery("M383", 2065150, mod_e383_187::M383_BASE_X, mod_e383_187::M383_BASE_Y, mod_e383_187::M383_ORDER);
    montgomery("CURVE383187", 229969, mod_e383_187::CURVE383187_BASE_X, mod_e383_187::CURVE383187_BASE_Y, mod_e383_187::CURVE383187_ORDER);
    montgomery("M511", 530438, mod_e511_187::M511_BASE_X, mod_e511_187::M511_BASE_Y, mod_e511_187::M511_ORDER);
    edwards::<E222>("E222", mod_e222_117::E222_D, mod_e222_117::E222_BASE_X, mod_e222_117::E222_BASE_Y, mod_e222_117::E222_ORDER);
    edwards::<Curve1174>("CURVE1174", mod_e251_9::CURVE1174_D, mod_e251_9::CURVE1174_BASE_X, mod_e251_9::CURVE1174_BASE_Y, mod_e251_9::CURVE1174_ORDER);
    edwards::<E382>("E382", mod_e382_105::E382_D, mod_e382_105::E382_BASE_X, mod_e382_105::E382_BASE_Y, mod_e382_105::E382_ORDER);
    edwards::<Curve41417>("CURVE41417", mod_e414_17::CURVE41417_D, mod_e414_17::CURVE41417_BASE_X, mod_e414_17::CURVE41417_BASE_Y, mod_e414_17::CURVE41417_ORDER);
    edwards::<E521>("E521", mod_e521_1::E521_D, mod_e521_1::E521_BASE_X, mod_e521_1::E521_BASE_Y, mod_e521_1::E521_ORDER);
}
