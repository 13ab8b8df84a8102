//! Instantiations of the public API of zkstd / bn-254 whose LLVM IR is executed symbolically by engine A.
//! Wrappers only name an instance; they contain no logic of their own.
#![allow(clippy::all, improper_ctypes_definitions, clippy::op_ref)]
use bn_254::*;
use zkstd::arithmetic::utils::Naf;
use zkstd::common::*;

macro_rules! w2 { ($n:ident, $t:ty, |$a:ident, $b:ident| $e:expr) => {
    #[no_mangle] pub extern "C" fn $n($a: &$t, $b: &$t, o: &mut $t) { let ($a, $b) = (*$a, *$b); *o = $e; } } }
macro_rules! w1 { ($n:ident, $t:ty, |$a:ident| $e:expr) => {
    #[no_mangle] pub extern "C" fn $n($a: &$t, o: &mut $t) { let $a = *$a; *o = $e; } } }
macro_rules! wb2 { ($n:ident, $t:ty, |$a:ident, $b:ident| $e:expr) => {
    #[no_mangle] pub extern "C" fn $n($a: &$t, $b: &$t) -> u8 { let ($a, $b) = (*$a, *$b); ($e) as u8 } } }
macro_rules! wb1 { ($n:ident, $t:ty, |$a:ident| $e:expr) => {
    #[no_mangle] pub extern "C" fn $n($a: &$t) -> u8 { let $a = *$a; ($e) as u8 } } }

fn put<T: Copy>(r: Option<T>, o: &mut T) -> u8 { match r { Some(x) => { *o = x; 1 } None => 0 } }

macro_rules! field { ($t:ty, $add:ident, $sub:ident, $neg:ident, $dbl:ident, $dbla:ident, $mul:ident, $sq:ident, $sqa:ident,
    $addc:ident, $cmp:ident) => {
    w2!($add, $t, |a, b| a + b);
    w2!($sub, $t, |a, b| a - b);
    w1!($neg, $t, |a| -a);
    w1!($dbl, $t, |a| PrimeField::double(a));
    w1!($dbla, $t, |a| { let mut x = a; PrimeField::double_assign(&mut x); x });
    w2!($mul, $t, |a, b| a * b);
    w1!($sq, $t, |a| PrimeField::square(a));
    w1!($sqa, $t, |a| { let mut x = a; PrimeField::square_assign(&mut x); x });
    w2!($addc, $t, |a, b| a.add_const(b));
    wb2!($cmp, $t, |a, b| (a.cmp(&b) as i8 + 1));
} }
field!(Fq, fq_add, fq_sub, fq_neg, fq_double, fq_double_assign, fq_mul, fq_square, fq_square_assign, fq_add_const, fq_cmp);
field!(Fr, fr_add, fr_sub, fr_neg, fr_double, fr_double_assign, fr_mul, fr_square, fr_square_assign, fr_add_const, fr_cmp);

macro_rules! forms { ($t:ty, $a1:ident $a2:ident $a3:ident $a4:ident $a5:ident, $s1:ident $s2:ident $s3:ident $s4:ident $s5:ident,
    $m1:ident $m2:ident $m3:ident $m4:ident $m5:ident, $n1:ident, $z:ident $o:ident $ai:ident $mi:ident $d:ident $sum:ident $prod:ident) => {
    w2!($a1, $t, |a, b| &a + &b);  w2!($a2, $t, |a, b| &a + b);  w2!($a3, $t, |a, b| a + &b);
    w2!($a4, $t, |a, b| { let mut x = a; x += b; x }); w2!($a5, $t, |a, b| { let mut x = a; x += &b; x });
    w2!($s1, $t, |a, b| &a - &b);  w2!($s2, $t, |a, b| &a - b);  w2!($s3, $t, |a, b| a - &b);
    w2!($s4, $t, |a, b| { let mut x = a; x -= b; x }); w2!($s5, $t, |a, b| { let mut x = a; x -= &b; x });
    w2!($m1, $t, |a, b| &a * &b);  w2!($m2, $t, |a, b| &a * b);  w2!($m3, $t, |a, b| a * &b);
    w2!($m4, $t, |a, b| { let mut x = a; x *= b; x }); w2!($m5, $t, |a, b| { let mut x = a; x *= &b; x });
    w1!($n1, $t, |a| -&a);
    #[no_mangle] pub extern "C" fn $z(o: &mut $t) { *o = <$t as IntGroup>::zero(); }
    #[no_mangle] pub extern "C" fn $o(o: &mut $t) { *o = <$t as Ring>::one(); }
    #[no_mangle] pub extern "C" fn $ai(o: &mut $t) { *o = <$t as Group>::ADDITIVE_IDENTITY; }
    #[no_mangle] pub extern "C" fn $mi(o: &mut $t) { *o = <$t as Ring>::MULTIPLICATIVE_IDENTITY; }
    #[no_mangle] pub extern "C" fn $d(o: &mut $t) { *o = <$t>::one(); }
    w2!($sum, $t, |a, b| [a, b].iter().sum::<$t>());
    w2!($prod, $t, |a, b| [a, b].iter().product::<$t>());
} }
forms!(Fq, fq_add_rr fq_add_rv fq_add_vr fq_add_av fq_add_ar, fq_sub_rr fq_sub_rv fq_sub_vr fq_sub_av fq_sub_ar,
    fq_mul_rr fq_mul_rv fq_mul_vr fq_mul_av fq_mul_ar, fq_neg_r, fq_zero fq_one fq_aid fq_mid fq_one_c fq_sum fq_prod);
forms!(Fr, fr_add_rr fr_add_rv fr_add_vr fr_add_av fr_add_ar, fr_sub_rr fr_sub_rv fr_sub_vr fr_sub_av fr_sub_ar,
    fr_mul_rr fr_mul_rv fr_mul_vr fr_mul_av fr_mul_ar, fr_neg_r, fr_zero fr_one fr_aid fr_mid fr_one_c fr_sum fr_prod);

// ---- bytes, comparisons, conversions
macro_rules! codec { ($t:ty, $tb:ident $fb:ident $rb:ident $wide:ident $u64:ident $mont:ident $enc:ident $dec:ident $tr:ident $fr:ident) => {
    #[no_mangle] pub extern "C" fn $tb(a: &$t, o: &mut [u8; 32]) { *o = a.to_bytes(); }
    #[no_mangle] pub extern "C" fn $fb(a: &[u8; 32], o: &mut $t) -> u8 { put(<$t>::from_bytes(*a), o) }
    #[no_mangle] pub extern "C" fn $rb(a: &$t) -> Vec<u8> { a.to_raw_bytes() }
    #[no_mangle] pub extern "C" fn $wide(a: &[u8; 64], o: &mut $t) { *o = <$t as PrimeField>::from_bytes_wide(a); }
    #[no_mangle] pub extern "C" fn $u64(a: u64, o: &mut $t) { *o = <$t>::from(a); }
    #[no_mangle] pub extern "C" fn $mont(a: &[u64; 4], o: &mut $t) { *o = <$t>::to_mont_form(*a); }
    #[no_mangle] pub extern "C" fn $enc(a: &$t) -> Vec<u8> { Encode::encode(a) }
    #[no_mangle] pub extern "C" fn $dec(a: &[u8; 32], o: &mut $t) -> u8 { let mut s: &[u8] = &a[..]; put(<$t as Decode>::decode(&mut s).ok(), o) }
    #[no_mangle] pub extern "C" fn $tr(a: &$t, o: &mut [u8; 32]) { *o = ff::PrimeField::to_repr(a); }
    #[no_mangle] pub extern "C" fn $fr(a: &[u8; 32], o: &mut $t) -> u8 { let r: Option<$t> = <$t as ff::PrimeField>::from_repr(*a).into(); put(r, o) }
} }
codec!(Fq, fq_to_bytes fq_from_bytes fq_raw_bytes fq_wide fq_from_u64 fq_to_mont fq_encode fq_decode fq_to_repr fq_from_repr);
codec!(Fr, fr_to_bytes fr_from_bytes fr_raw_bytes fr_wide fr_from_u64 fr_to_mont fr_encode fr_decode fr_to_repr fr_from_repr);
#[no_mangle] pub extern "C" fn fr_from_hash(a: &[u8; 64], o: &mut Fr) { *o = <Fr as FftField>::from_hash(a); }
#[no_mangle] pub extern "C" fn fr_to_fq(a: &Fr, o: &mut Fq) { *o = Fq::from(*a); }
#[no_mangle] pub extern "C" fn fq_to_fr(a: &Fq, o: &mut Fr) { *o = Fr::from(*a); }
#[no_mangle] pub extern "C" fn fr_reduce(a: &Fr, o: &mut Fr) { *o = <Fr as FftField>::reduce(a); }

macro_rules! cmps { ($t:ty, $eq:ident $ne:ident $lt:ident $le:ident $gt:ident $ge:ident $pc:ident $mx:ident $mn:ident $z:ident $lex:ident) => {
    wb2!($eq, $t, |a, b| a == b); wb2!($ne, $t, |a, b| a != b);
    wb2!($lt, $t, |a, b| a < b); wb2!($le, $t, |a, b| a <= b); wb2!($gt, $t, |a, b| a > b); wb2!($ge, $t, |a, b| a >= b);
    wb2!($pc, $t, |a, b| match a.partial_cmp(&b) { Some(o) => o as i8 + 1, None => 3 });
    w2!($mx, $t, |a, b| a.max(b)); w2!($mn, $t, |a, b| a.min(b));
    wb1!($z, $t, |a| PrimeField::is_zero(a));
} }
cmps!(Fq, fq_eq fq_ne fq_lt fq_le fq_gt fq_ge fq_pcmp fq_max fq_min fq_is_zero fq_lex);
cmps!(Fr, fr_eq fr_ne fr_lt fr_le fr_gt fr_ge fr_pcmp fr_max fr_min fr_is_zero fr_lex);
wb1!(fq_lexl, Fq, |a| a.lexicographically_largest());
wb1!(fr_is_odd, Fr, |a| a.is_odd());
wb1!(fq_ff_is_odd, Fq, |a| ff::PrimeField::is_odd(&a).unwrap_u8());
wb1!(fr_ff_is_odd, Fr, |a| ff::PrimeField::is_odd(&a).unwrap_u8());
#[no_mangle] pub extern "C" fn fr_xor(a: &Fr, b: &Fr, o: &mut Fr) { *o = a ^ b; }
#[no_mangle] pub extern "C" fn fr_and(a: &Fr, b: &Fr, o: &mut Fr) { *o = a & b; }

// ---- inversion, division, powers, roots
macro_rules! invs { ($t:ty, $inv:ident $div:ident $diva:ident $p2:ident $pv:ident $sq:ident $ffinv:ident) => {
    #[no_mangle] pub extern "C" fn $inv(a: &$t, o: &mut $t) -> u8 { put(Group::invert(*a), o) }
    w2!($div, $t, |a, b| a / b);
    w2!($diva, $t, |a, b| { let mut x = a; x /= b; x });
    #[no_mangle] pub extern "C" fn $p2(e: u64, o: &mut $t) { *o = <$t as PrimeField>::pow_of_2(e); }
    #[no_mangle] pub extern "C" fn $pv(a: &$t, e: &[u64; 4], o: &mut $t) { *o = a.pow_vartime(e); }
    #[no_mangle] pub extern "C" fn $sq(a: &$t, o: &mut $t) -> u8 { put(a.sqrt(), o) }
    #[no_mangle] pub extern "C" fn $ffinv(a: &$t, o: &mut $t) -> u8 { let r: Option<$t> = ff::Field::invert(a).into(); put(r, o) }
} }
invs!(Fq, fq_invert fq_div fq_div_assign fq_pow_of_2 fq_pow_vartime fq_sqrt fq_ff_invert);
invs!(Fr, fr_invert fr_div fr_div_assign fr_pow_of_2 fr_pow_vartime fr_sqrt fr_ff_invert);
#[no_mangle] pub extern "C" fn fr_pow(a: &Fr, e: u64, o: &mut Fr) { *o = FftField::pow(*a, e); }

// ---- digit expansions
#[no_mangle] pub extern "C" fn fq_bits(a: &Fq) -> Vec<u8> { a.to_bits() }
#[no_mangle] pub extern "C" fn fr_bits(a: &Fr) -> Vec<u8> { a.to_bits() }
#[no_mangle] pub extern "C" fn fq_nafs(a: &Fq) -> Vec<Naf> { a.to_nafs() }
#[no_mangle] pub extern "C" fn fr_nafs(a: &Fr) -> Vec<Naf> { a.to_nafs() }
#[no_mangle] pub extern "C" fn fr_repr4(a: &Fr) -> Vec<u8> { a.to_costomized_repr() }
#[no_mangle] pub extern "C" fn l4_bits(a: &[u64; 4]) -> Vec<u8> { zkstd::arithmetic::bits_256::to_bits(*a) }
#[no_mangle] pub extern "C" fn l4_nafs(a: &[u64; 4]) -> Vec<Naf> { zkstd::arithmetic::bits_256::to_nafs(*a) }
#[no_mangle] pub extern "C" fn l6_bits(a: &[u64; 6]) -> Vec<u8> { zkstd::arithmetic::bits_384::to_bits(*a) }
#[no_mangle] pub extern "C" fn l6_nafs(a: &[u64; 6]) -> Vec<Naf> { zkstd::arithmetic::bits_384::to_nafs(*a) }

// ---- limb arithmetic with the other moduli the toolkit is used with
pub const JJ: [u64; 4] = [0xd0970e5ed6f72cb7, 0xa6682093ccc81082, 0x06673b0101343b00, 0x0e7db4ea6533afa9];
pub const JJ_INV: u64 = 0x1ba3a358ef788ef9;
pub const BLR: [u64; 4] = [0xffffffff00000001, 0x53bda402fffe5bfe, 0x3339d80809a1d805, 0x73eda753299d7d48];
pub const BLR_INV: u64 = 0xfffffffeffffffff;
pub const BLQ: [u64; 6] = [0xb9feffffffffaaab, 0x1eabfffeb153ffff, 0x6730d2a0f6b0f624, 0x64774b84f38512bf, 0x4b1ba7b6434bacd7, 0x1a0111ea397fe69a];
pub const BLQ_INV: u64 = 0x89f3fffcfffcfffd;
macro_rules! limbs { ($n:expr, $m:ident, $p:ident, $i:ident, $add:ident $sub:ident $neg:ident $dbl:ident $mul:ident $sq:ident) => {
    w2!($add, [u64; $n], |a, b| zkstd::arithmetic::$m::add(a, b, $p));
    w2!($sub, [u64; $n], |a, b| zkstd::arithmetic::$m::sub(a, b, $p));
    w1!($neg, [u64; $n], |a| zkstd::arithmetic::$m::neg(a, $p));
    w1!($dbl, [u64; $n], |a| zkstd::arithmetic::$m::double(a, $p));
    w2!($mul, [u64; $n], |a, b| zkstd::arithmetic::$m::mul(a, b, $p, $i));
    w1!($sq, [u64; $n], |a| zkstd::arithmetic::$m::square(a, $p, $i));
} }
limbs!(4, bits_256, JJ, JJ_INV, jj_add jj_sub jj_neg jj_double jj_mul jj_square);
limbs!(4, bits_256, BLR, BLR_INV, blr_add blr_sub blr_neg blr_double blr_mul blr_square);
limbs!(6, bits_384, BLQ, BLQ_INV, blq_add blq_sub blq_neg blq_double blq_mul blq_square);
#[no_mangle] pub extern "C" fn blr_mont(a: &[u64; 8], o: &mut [u64; 4]) { *o = zkstd::arithmetic::bits_256::mont(*a, BLR, BLR_INV); }
#[no_mangle] pub extern "C" fn blq_mont(a: &[u64; 12], o: &mut [u64; 6]) { *o = zkstd::arithmetic::bits_384::mont(*a, BLQ, BLQ_INV); }
#[no_mangle] pub extern "C" fn blq_invert(a: &[u64; 6], one: &[u64; 6], o: &mut [u64; 6]) -> u8 {
    put(zkstd::arithmetic::bits_384::invert(*a, zkstd::arithmetic::bits_384::little_fermat(BLQ), *one, BLQ, BLQ_INV), o) }
#[no_mangle] pub extern "C" fn blq_pow(a: &[u64; 6], b: &[u64; 6], one: &[u64; 6], o: &mut [u64; 6]) {
    *o = zkstd::arithmetic::bits_384::pow(*a, *b, *one, BLQ, BLQ_INV); }
#[no_mangle] pub extern "C" fn blr_pow(a: &[u64; 4], b: &[u64; 4], one: &[u64; 4], o: &mut [u64; 4]) {
    *o = zkstd::arithmetic::bits_256::pow(*a, *b, *one, BLR, BLR_INV); }

// ---- scalar multiplication
#[allow(dead_code, unused_imports)]
#[path = "/repo/zkstd/tests/jubjub.rs"]
pub mod jj;
pub use jj::jubjub_curve::{BlsScalar, JubjubAffine, JubjubExtended};
macro_rules! smul { ($p:ty, $a:ty, $k:ty, $pk:ident $kp:ident $ak:ident $ka:ident $rpk:ident $rkp:ident $rak:ident $rka:ident $pa:ident) => {
    #[no_mangle] pub extern "C" fn $pk(a: &$p, k: &$k, o: &mut $p) { *o = *a * *k; }
    #[no_mangle] pub extern "C" fn $kp(a: &$p, k: &$k, o: &mut $p) { *o = *k * *a; }
    #[no_mangle] pub extern "C" fn $ak(a: &$a, k: &$k, o: &mut $p) { *o = *a * *k; }
    #[no_mangle] pub extern "C" fn $ka(a: &$a, k: &$k, o: &mut $p) { *o = *k * *a; }
    #[no_mangle] pub extern "C" fn $rpk(a: &$p, k: &$k, o: &mut $p) { *o = a * k; }
    #[no_mangle] pub extern "C" fn $rkp(a: &$p, k: &$k, o: &mut $p) { *o = k * a; }
    #[no_mangle] pub extern "C" fn $rak(a: &$a, k: &$k, o: &mut $p) { *o = a * k; }
    #[no_mangle] pub extern "C" fn $rka(a: &$a, k: &$k, o: &mut $p) { *o = k * a; }
    #[no_mangle] pub extern "C" fn $pa(a: &$p, k: &$k, o: &mut $p) { let mut x = *a; x *= *k; *o = x; }
} }
smul!(G1Projective, G1Affine, Fr, g1_pk g1_kp g1_ak g1_ka g1_rpk g1_rkp g1_rak g1_rka g1_pa);
smul!(G2Projective, G2Affine, Fr, g2_pk g2_kp g2_ak g2_ka g2_rpk g2_rkp g2_rak g2_rka g2_pa);
smul!(grumpkin::Projective, grumpkin::Affine, Fq, gr_pk gr_kp gr_ak gr_ka gr_rpk gr_rkp gr_rak gr_rka gr_pa);
smul!(JubjubExtended, JubjubAffine, BlsScalar, jj_pk jj_kp jj_ak jj_ka jj_rpk jj_rkp jj_rak jj_rka jj_pa);
