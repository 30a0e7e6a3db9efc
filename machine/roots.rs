//! One exported entry point per public operation, so that the optimised machine code of each can be inspected.  Every
//! argument named `i` or `len` is public, all others (and whatever they point to) are secret.
extern crate safecurves_rust;

use safecurves_rust::curve::curve1174::Curve1174;
use safecurves_rust::curve::curve41417::Curve41417;
use safecurves_rust::curve::e_222::E222;
use safecurves_rust::curve::e_382::E382;
use safecurves_rust::curve::e_521::E521;
use safecurves_rust::curve::edwards::EdwardsExtended;
use safecurves_rust::curve::point::Point;
use safecurves_rust::field::mod_e221_3::Mod_e221_3;
use safecurves_rust::field::mod_e222_117::Mod_e222_117;
use safecurves_rust::field::mod_e251_9::Mod_e251_9;
use safecurves_rust::field::mod_e255_19::Mod_e255_19;
use safecurves_rust::field::mod_e382_105::Mod_e382_105;
use safecurves_rust::field::mod_e383_187::Mod_e383_187;
use safecurves_rust::field::mod_e414_17::Mod_e414_17;
use safecurves_rust::field::mod_e511_187::Mod_e511_187;
use safecurves_rust::field::mod_e521_1::Mod_e521_1;
use safecurves_rust::field::prime_field::PrimeField;
use safecurves_rust::normalize::{Normalize, NormalizeEq};
use safecurves_rust::pack::Pack;

macro_rules! root {
    ($m:ident, $f:ident($($a:ident: $t:ty),*) $b:block) => {
        #[export_name = concat!("scv.", stringify!($m), ".", stringify!($f))]
        pub extern "C" fn $f($($a: $t),*) $b
    }
}

macro_rules! field {
    ($m:ident, $t:ty, $n:expr) => {
        pub mod $m {
            use super::*;
            type F = $t;

            root!($m, add(a: &F, b: &F, o: &mut F) { *o = *a + *b });
            root!($m, add_ref(a: &F, b: &F, o: &mut F) { *o = a + b });
            root!($m, add_assign(a: &mut F, b: &F) { *a += *b });
            root!($m, add_assign_ref(a: &mut F, b: &F) { *a += b });
            root!($m, sub(a: &F, b: &F, o: &mut F) { *o = *a - *b });
            root!($m, sub_ref(a: &F, b: &F, o: &mut F) { *o = a - b });
            root!($m, sub_assign(a: &mut F, b: &F) { *a -= *b });
            root!($m, mul(a: &F, b: &F, o: &mut F) { *o = *a * *b });
            root!($m, mul_ref(a: &F, b: &F, o: &mut F) { *o = a * b });
            root!($m, mul_assign(a: &mut F, b: &F) { *a *= *b });
            root!($m, div(a: &F, b: &F, o: &mut F) { *o = *a / *b });
            root!($m, div_assign(a: &mut F, b: &F) { *a /= *b });
            root!($m, neg(a: &F, o: &mut F) { *o = -*a });
            root!($m, add_i8(a: &mut F, b: i8, o: &mut F) { *o = *a + b; *a += b });
            root!($m, add_i16(a: &mut F, b: i16, o: &mut F) { *o = *a + b; *a += b });
            root!($m, add_i32(a: &mut F, b: i32, o: &mut F) { *o = *a + b; *a += b });
            root!($m, sub_i8(a: &mut F, b: i8, o: &mut F) { *o = *a - b; *a -= b });
            root!($m, sub_i16(a: &mut F, b: i16, o: &mut F) { *o = *a - b; *a -= b });
            root!($m, sub_i32(a: &mut F, b: i32, o: &mut F) { *o = *a - b; *a -= b });
            root!($m, mul_i8(a: &mut F, b: i8, o: &mut F) { *o = *a * b; *a *= b });
            root!($m, mul_i16(a: &mut F, b: i16, o: &mut F) { *o = *a * b; *a *= b });
            root!($m, mul_i32(a: &mut F, b: i32, o: &mut F) { *o = *a * b; *a *= b });
            root!($m, small_add(a: &F, b: i32, o: &mut F) { *o = a.small_add(b) });
            root!($m, small_sub(a: &F, b: i32, o: &mut F) { *o = a.small_sub(b) });
            root!($m, small_mul(a: &F, b: i32, o: &mut F) { *o = a.small_mul(b) });
            root!($m, square(a: &mut F) { a.square() });
            root!($m, squared(a: &F, o: &mut F) { *o = a.squared() });
            root!($m, invert(a: &mut F) { a.invert() });
            root!($m, inverted(a: &F, o: &mut F) { *o = a.inverted() });
            root!($m, legendre(a: &F, o: &mut F) { *o = a.legendre() });
            root!($m, sqrt(a: &F, o: &mut F) { *o = a.sqrt() });
            root!($m, normalize(a: &mut F) { a.normalize() });
            root!($m, normalize_eq(a: &mut F, b: &mut F, o: &mut bool) { *o = a.normalize_eq(b) });
            root!($m, normalize_self_eq(a: &mut F, b: &F, o: &mut bool) { *o = a.normalize_self_eq(b) });
            root!($m, pack(a: &mut F, o: &mut [u8; $n]) { a.pack(&mut o[..]) });
            root!($m, pack_normalized(a: &F, o: &mut [u8; $n]) { a.pack_normalized(&mut o[..]) });
            root!($m, packed(a: &mut F, o: &mut [u8; $n]) { *o = a.packed() });
            root!($m, unpack(a: &mut F, b: &[u8; $n]) { a.unpack(&b[..]) });
            root!($m, unpacked(b: &[u8; $n], o: &mut F) { *o = F::unpacked(&b[..]) });
            root!($m, bit(a: &mut F, i: usize, o: &mut bool) { *o = a.bit(i) });
            root!($m, bit_normalized(a: &F, i: usize, o: &mut bool) { *o = a.bit_normalized(i) });
            root!($m, fill(a: &mut F, b: bool) { PrimeField::fill(a, b) });
            root!($m, filled(b: bool, o: &mut F) { *o = <F as PrimeField>::filled(b) });
            root!($m, normalize_bitand(a: &mut F, b: &mut F) { a.normalize_bitand(b) });
            root!($m, normalize_self_bitand(a: &mut F, b: &F) { a.normalize_self_bitand(b) });
            root!($m, normalized_bitand(a: &mut F, b: &F) { a.normalized_bitand(b) });
            root!($m, normalize_bitor(a: &mut F, b: &mut F) { a.normalize_bitor(b) });
            root!($m, normalize_self_bitor(a: &mut F, b: &F) { a.normalize_self_bitor(b) });
            root!($m, normalized_bitor(a: &mut F, b: &F) { a.normalized_bitor(b) });
        }
    }
}

macro_rules! curve {
    ($m:ident, $t:ty, $f:ty) => {
        pub mod $m {
            use super::*;
            type P = EdwardsExtended<$t>;
            type F = $f;

            root!($m, init(a: &mut P, x: &F, y: &F) { a.init(*x, *y) });
            root!($m, add(a: &P, b: &P, o: &mut P) { *o = *a + *b });
            root!($m, add_ref(a: &P, b: &P, o: &mut P) { *o = a + b });
            root!($m, add_assign(a: &mut P, b: &P) { *a += *b });
            root!($m, add_assign_ref(a: &mut P, b: &P) { *a += b });
            root!($m, double(a: &mut P) { a.double() });
            root!($m, doubled(a: &P, o: &mut P) { *o = a.doubled() });
            root!($m, triple(a: &mut P) { a.triple() });
            root!($m, tripled(a: &P, o: &mut P) { *o = a.tripled() });
            root!($m, scalar_mult(a: &mut P, b: &mut F) { a.scalar_mult(b) });
            root!($m, scalar_mult_normalized(a: &mut P, b: &F) { a.scalar_mult_normalized(b) });
        }
    }
}

field!(e221_3, Mod_e221_3, 28);
field!(e222_117, Mod_e222_117, 28);
field!(e251_9, Mod_e251_9, 32);
field!(e255_19, Mod_e255_19, 32);
field!(e382_105, Mod_e382_105, 48);
field!(e383_187, Mod_e383_187, 48);
field!(e414_17, Mod_e414_17, 52);
field!(e511_187, Mod_e511_187, 64);
field!(e521_1, Mod_e521_1, 66);

curve!(curve1174, Curve1174, Mod_e251_9);
curve!(curve41417, Curve41417, Mod_e414_17);
curve!(e_222, E222, Mod_e222_117);
curve!(e_382, E382, Mod_e382_105);
curve!(e_521, E521, Mod_e521_1);
