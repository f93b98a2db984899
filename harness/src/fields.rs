//! Uniform access to the nine concrete field types of the crate under test.
use safecurves_rust::field::prime_field::*;
use std::fmt::{Debug, LowerHex, UpperHex};

pub type Forms<F> = Vec<(&'static str, F)>;

pub trait Fld:
    PrimeField + Copy + Clone + Debug + LowerHex + UpperHex + Send + Sync + 'static
{
    const NAME: &'static str;
    const N: usize;
    const C: u64;
    /// Documented packed length.
    const NB: usize;
    /// Word and digit width hints, used only to shape hostile inputs.
    const WORD: usize;
    const DIGIT: usize;

    fn c_zero() -> Self;
    fn c_one() -> Self;
    fn c_m_one() -> Self;
    fn c_modulus() -> Self;
    fn packed_vec(&mut self) -> Vec<u8>;
    fn forms_add(a: &Self, b: &Self) -> Forms<Self>;
    fn forms_sub(a: &Self, b: &Self) -> Forms<Self>;
    fn forms_mul(a: &Self, b: &Self) -> Forms<Self>;
    fn forms_div(a: &Self, b: &Self) -> Forms<Self>;
    fn forms_sadd(a: &Self, b: i32) -> Forms<Self>;
    fn forms_ssub(a: &Self, b: i32) -> Forms<Self>;
    fn forms_smul(a: &Self, b: i32) -> Forms<Self>;
    /// Every form with a single digit, folded into one value (no branch on a digit).
    fn small_all(a: &Self, i: i32, h: i16, k: i8) -> Self;
    /// Every form with another element, folded into one value.
    fn binary_all(a: &Self, b: &Self) -> Self;
    fn div_all(a: &Self, b: &Self) -> Self;
    fn forms_self(a: &Self) -> Forms<Self>; // aliased uses: a+a, a-a, a*a, a/a
    fn add_r(a: &Self, b: &Self) -> Self;
    fn sub_r(a: &Self, b: &Self) -> Self;
    fn mul_r(a: &Self, b: &Self) -> Self;
    fn div_r(a: &Self, b: &Self) -> Self;
    fn add_ar(a: &mut Self, b: &Self);
    fn sub_ar(a: &mut Self, b: &Self);
    fn mul_ar(a: &mut Self, b: &Self);
    fn div_ar(a: &mut Self, b: &Self);
}

macro_rules! fld {
    ($m:ident, $t:ident, $name:expr, $n:expr, $c:expr, $nb:expr, $w:expr, $d:expr) => {
        impl Fld for safecurves_rust::field::$m::$t {
            const NAME: &'static str = $name;
            const N: usize = $n;
            const C: u64 = $c;
            const NB: usize = $nb;
            const WORD: usize = $w;
            const DIGIT: usize = $d;
            fn c_zero() -> Self { safecurves_rust::field::$m::ZERO }
            fn c_one() -> Self { safecurves_rust::field::$m::ONE }
            fn c_m_one() -> Self { safecurves_rust::field::$m::M_ONE }
            fn c_modulus() -> Self { safecurves_rust::field::$m::MODULUS }
            fn packed_vec(&mut self) -> Vec<u8> { self.packed().to_vec() }
            fn add_r(a: &Self, b: &Self) -> Self { a + b }
            fn sub_r(a: &Self, b: &Self) -> Self { a - b }
            fn mul_r(a: &Self, b: &Self) -> Self { a * b }
            fn div_r(a: &Self, b: &Self) -> Self { a / b }
            fn add_ar(a: &mut Self, b: &Self) { *a += b }
            fn sub_ar(a: &mut Self, b: &Self) { *a -= b }
            fn mul_ar(a: &mut Self, b: &Self) { *a *= b }
            fn div_ar(a: &mut Self, b: &Self) { *a /= b }
            fn forms_add(a: &Self, b: &Self) -> Forms<Self> {
                let mut x = *a; x += b;
                let mut y = *a; y += *b;
                vec![("&a+&b", a + b), ("a+b", *a + *b), ("a+=&b", x), ("a+=b", y)]
            }
            fn forms_sub(a: &Self, b: &Self) -> Forms<Self> {
                let mut x = *a; x -= b;
                let mut y = *a; y -= *b;
                vec![("&a-&b", a - b), ("a-b", *a - *b), ("a-=&b", x), ("a-=b", y)]
            }
            fn forms_mul(a: &Self, b: &Self) -> Forms<Self> {
                let mut x = *a; x *= b;
                let mut y = *a; y *= *b;
                vec![("&a*&b", a * b), ("a*b", *a * *b), ("a*=&b", x), ("a*=b", y)]
            }
            fn forms_div(a: &Self, b: &Self) -> Forms<Self> {
                let mut x = *a; x /= b;
                let mut y = *a; y /= *b;
                let z = a * &b.inverted();
                vec![("&a/&b", a / b), ("a/b", *a / *b), ("a/=&b", x), ("a/=b", y), ("a*inv(b)", z)]
            }
            fn forms_self(a: &Self) -> Forms<Self> {
                let mut s = *a; let t = s; s += &t; 
                let mut q = *a; q.square();
                let mut m = *a; m *= &m.clone();
                vec![("&a+&a", a + a), ("a+=a", s), ("a.small_mul(2)", a.small_mul(2)),
                     ("&a*&a", a * a), ("a.squared()", a.squared()), ("a.square()", q), ("a*=a", m)]
            }
            fn small_all(a: &Self, i: i32, h: i16, k: i8) -> Self {
                let mut x = a + i; x += *a + i; x += i + a; x -= a - i; x += *a - i; x += a * i; x -= *a * i; x += i * a;
                x += a + h; x += *a + h; x += h + a; x -= a - h; x += *a - h; x += a * h; x -= *a * h; x += h * a;
                x += a + k; x += *a + k; x += k + a; x -= a - k; x += *a - k; x += a * k; x -= *a * k; x += k * a;
                x += i; x += h; x += k; x -= i; x -= h; x -= k; x *= i; x *= h; x *= k;
                x.small_add_assign(i); x.small_sub_assign(i); x.small_mul_assign(i);
                x.small_add(i).small_sub(i).small_mul(i)
            }
            fn binary_all(a: &Self, b: &Self) -> Self {
                let mut x = a + b; x += *a + *b; x -= a - b; x -= *a - *b; x += a * b; x += *a * *b;
                x += b; x += *b; x -= a; x -= *a; x *= b; x *= *b; x += -*a; x -= b.squared(); x.square();
                x
            }
            fn div_all(a: &Self, b: &Self) -> Self {
                let mut x = a / b; x += *a / *b; x /= b; x /= *b; x += b.inverted(); x.invert();
                x
            }
            fn forms_sadd(a: &Self, b: i32) -> Forms<Self> {
                let mut x = *a; x += b;
                let mut y = *a; y.small_add_assign(b);
                let mut v = vec![("&a+i32", a + b), ("a+i32", *a + b), ("a+=i32", x),
                    ("small_add_assign", y), ("small_add", a.small_add(b)), ("i32+&a", b + a)];
                if let Ok(c) = i16::try_from(b) {
                    let mut x = *a; x += c;
                    v.push(("&a+i16", a + c)); v.push(("a+i16", *a + c)); v.push(("a+=i16", x));
                    v.push(("i16+&a", c + a));
                }
                if let Ok(c) = i8::try_from(b) {
                    let mut x = *a; x += c;
                    v.push(("&a+i8", a + c)); v.push(("a+i8", *a + c)); v.push(("a+=i8", x));
                    v.push(("i8+&a", c + a));
                }
                v
            }
            fn forms_ssub(a: &Self, b: i32) -> Forms<Self> {
                let mut x = *a; x -= b;
                let mut y = *a; y.small_sub_assign(b);
                let mut v = vec![("&a-i32", a - b), ("a-i32", *a - b), ("a-=i32", x),
                    ("small_sub_assign", y), ("small_sub", a.small_sub(b))];
                if let Ok(c) = i16::try_from(b) {
                    let mut x = *a; x -= c;
                    v.push(("&a-i16", a - c)); v.push(("a-i16", *a - c)); v.push(("a-=i16", x));
                }
                if let Ok(c) = i8::try_from(b) {
                    let mut x = *a; x -= c;
                    v.push(("&a-i8", a - c)); v.push(("a-i8", *a - c)); v.push(("a-=i8", x));
                }
                v
            }
            fn forms_smul(a: &Self, b: i32) -> Forms<Self> {
                let mut x = *a; x *= b;
                let mut y = *a; y.small_mul_assign(b);
                let mut v = vec![("&a*i32", a * b), ("a*i32", *a * b), ("a*=i32", x),
                    ("small_mul_assign", y), ("small_mul", a.small_mul(b)), ("i32*&a", b * a)];
                if let Ok(c) = i16::try_from(b) {
                    let mut x = *a; x *= c;
                    v.push(("&a*i16", a * c)); v.push(("a*i16", *a * c)); v.push(("a*=i16", x));
                    v.push(("i16*&a", c * a));
                }
                if let Ok(c) = i8::try_from(b) {
                    let mut x = *a; x *= c;
                    v.push(("&a*i8", a * c)); v.push(("a*i8", *a * c)); v.push(("a*=i8", x));
                    v.push(("i8*&a", c * a));
                }
                v
            }
        }
    };
}

fld!(mod_e221_3, Mod_e221_3, "e221_3", 221, 3, 28, 58, 29);
fld!(mod_e222_117, Mod_e222_117, "e222_117", 222, 117, 28, 58, 29);
fld!(mod_e251_9, Mod_e251_9, "e251_9", 251, 9, 32, 56, 28);
fld!(mod_e255_19, Mod_e255_19, "e255_19", 255, 19, 32, 56, 28);
fld!(mod_e382_105, Mod_e382_105, "e382_105", 382, 105, 48, 56, 28);
fld!(mod_e383_187, Mod_e383_187, "e383_187", 383, 187, 48, 56, 28);
fld!(mod_e414_17, Mod_e414_17, "e414_17", 414, 17, 52, 56, 28);
fld!(mod_e511_187, Mod_e511_187, "e511_187", 511, 187, 64, 54, 27);
fld!(mod_e521_1, Mod_e521_1, "e521_1", 521, 1, 66, 54, 27);

pub const FIELDS: [&str; 9] = ["e221_3", "e222_117", "e251_9", "e255_19", "e382_105",
    "e383_187", "e414_17", "e511_187", "e521_1"];

/// Run `$body` with the type alias `F` bound to the field called `$name`.
#[macro_export]
macro_rules! with_field {
    ($name:expr, $F:ident, $body:expr) => {
        match $name {
            "e221_3" => { type $F = safecurves_rust::field::mod_e221_3::Mod_e221_3; $body }
            "e222_117" => { type $F = safecurves_rust::field::mod_e222_117::Mod_e222_117; $body }
            "e251_9" => { type $F = safecurves_rust::field::mod_e251_9::Mod_e251_9; $body }
            "e255_19" => { type $F = safecurves_rust::field::mod_e255_19::Mod_e255_19; $body }
            "e382_105" => { type $F = safecurves_rust::field::mod_e382_105::Mod_e382_105; $body }
            "e383_187" => { type $F = safecurves_rust::field::mod_e383_187::Mod_e383_187; $body }
            "e414_17" => { type $F = safecurves_rust::field::mod_e414_17::Mod_e414_17; $body }
            "e511_187" => { type $F = safecurves_rust::field::mod_e511_187::Mod_e511_187; $body }
            "e521_1" => { type $F = safecurves_rust::field::mod_e521_1::Mod_e521_1; $body }
            other => panic!("unknown field {}", other),
        }
    };
}
