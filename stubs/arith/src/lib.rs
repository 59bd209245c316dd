//! Stand-in for Expander's `arith` crate (absent from this sandbox).
use ethnum::U256;
use rand::RngCore;
pub use rand;
pub use serdes::ExpSerde;
use std::fmt::Debug;
use std::hash::Hash;
use std::iter::{Product, Sum};
use std::ops::{Add, AddAssign, Mul, MulAssign, Neg, Sub, SubAssign};
#[doc(hidden)] pub use ethnum; #[doc(hidden)] pub use serdes;

pub trait Field: Copy + Clone + Debug + Default + PartialEq + Eq + PartialOrd + Ord + Hash + Send + Sync + 'static
    + From<u32> + Neg<Output = Self>
    + Add<Output = Self> + Sub<Output = Self> + Mul<Output = Self>
    + for<'a> Add<&'a Self, Output = Self> + for<'a> Sub<&'a Self, Output = Self> + for<'a> Mul<&'a Self, Output = Self>
    + AddAssign + SubAssign + MulAssign
    + for<'a> AddAssign<&'a Self> + for<'a> SubAssign<&'a Self> + for<'a> MulAssign<&'a Self>
    + Sum + Product + for<'a> Sum<&'a Self> + for<'a> Product<&'a Self> + ExpSerde
{
    const NAME: &'static str;
    const SIZE: usize;
    const FIELD_SIZE: usize;
    const ZERO: Self;
    const ONE: Self;
    const MODULUS: U256;
    fn zero() -> Self { Self::ZERO }
    fn one() -> Self { Self::ONE }
    fn is_zero(&self) -> bool { *self == Self::ZERO }
    fn random_unsafe(rng: impl RngCore) -> Self;
    fn random_bool(mut rng: impl RngCore) -> Self { Self::from(rng.next_u32() & 1) }
    fn inv(&self) -> Option<Self>;
    fn to_u256(&self) -> U256;
    fn from_u256(v: U256) -> Self;
    fn as_u32_unchecked(&self) -> u32 { self.to_u256().as_u32() }
    fn square(&self) -> Self { *self * *self }
    fn double(&self) -> Self { *self + *self }
    fn exp(&self, mut e: u128) -> Self { let mut b = *self; let mut r = Self::ONE; while e > 0 { if e & 1 == 1 { r *= b; } b = b * b; e >>= 1; } r }
}
pub trait SimdField: Field {
    type Scalar: Field;
    const PACK_SIZE: usize;
    fn scale(&self, c: &Self::Scalar) -> Self;
    fn pack(v: &[Self::Scalar]) -> Self;
    fn pack_full(v: &Self::Scalar) -> Self { Self::pack(&vec![*v; Self::PACK_SIZE]) }
    fn unpack(&self) -> Vec<Self::Scalar>;
}

#[macro_export]
macro_rules! derived_ops { ($t:ty) => {
    impl<'a> std::ops::Add<&'a $t> for $t { type Output = $t; fn add(self, o: &'a $t) -> $t { self + *o } }
    impl<'a> std::ops::Sub<&'a $t> for $t { type Output = $t; fn sub(self, o: &'a $t) -> $t { self - *o } }
    impl<'a> std::ops::Mul<&'a $t> for $t { type Output = $t; fn mul(self, o: &'a $t) -> $t { self * *o } }
    impl std::ops::AddAssign for $t { fn add_assign(&mut self, o: $t) { *self = *self + o } }
    impl std::ops::SubAssign for $t { fn sub_assign(&mut self, o: $t) { *self = *self - o } }
    impl std::ops::MulAssign for $t { fn mul_assign(&mut self, o: $t) { *self = *self * o } }
    impl<'a> std::ops::AddAssign<&'a $t> for $t { fn add_assign(&mut self, o: &'a $t) { *self = *self + *o } }
    impl<'a> std::ops::SubAssign<&'a $t> for $t { fn sub_assign(&mut self, o: &'a $t) { *self = *self - *o } }
    impl<'a> std::ops::MulAssign<&'a $t> for $t { fn mul_assign(&mut self, o: &'a $t) { *self = *self * *o } }
    impl std::ops::Neg for $t { type Output = $t; fn neg(self) -> $t { <$t as $crate::Field>::ZERO - self } }
    impl std::iter::Sum for $t { fn sum<I: Iterator<Item = $t>>(i: I) -> $t { i.fold(<$t as $crate::Field>::ZERO, |a, b| a + b) } }
    impl std::iter::Product for $t { fn product<I: Iterator<Item = $t>>(i: I) -> $t { i.fold(<$t as $crate::Field>::ONE, |a, b| a * b) } }
    impl<'a> std::iter::Sum<&'a $t> for $t { fn sum<I: Iterator<Item = &'a $t>>(i: I) -> $t { i.fold(<$t as $crate::Field>::ZERO, |a, b| a + *b) } }
    impl<'a> std::iter::Product<&'a $t> for $t { fn product<I: Iterator<Item = &'a $t>>(i: I) -> $t { i.fold(<$t as $crate::Field>::ONE, |a, b| a * *b) } }
} }

/// A prime field with modulus below 2^64, canonical representation.
#[macro_export]
macro_rules! prime_field { ($t:ident, $p:expr, $bits:expr, $bytes:ty, $name:expr) => {
    #[derive(Debug, Clone, Copy, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
    pub struct $t { pub v: $bytes }
    impl $t { pub const P: u64 = $p; pub fn new(x: $bytes) -> Self { Self { v: (x as u64 % Self::P) as $bytes } } }
    impl std::ops::Add for $t { type Output = $t; fn add(self, o: $t) -> $t { $t { v: ((self.v as u128 + o.v as u128) % Self::P as u128) as $bytes } } }
    impl std::ops::Sub for $t { type Output = $t; fn sub(self, o: $t) -> $t { $t { v: ((self.v as u128 + Self::P as u128 - o.v as u128) % Self::P as u128) as $bytes } } }
    impl std::ops::Mul for $t { type Output = $t; fn mul(self, o: $t) -> $t { $t { v: ((self.v as u128 * o.v as u128) % Self::P as u128) as $bytes } } }
    $crate::derived_ops!($t);
    impl From<u32> for $t { fn from(x: u32) -> Self { $t { v: (x as u64 % Self::P) as $bytes } } }
    impl $crate::serdes::ExpSerde for $t {
        fn serialize_into<W: std::io::Write>(&self, w: W) -> $crate::serdes::SerdeResult<()> { $crate::serdes::ExpSerde::serialize_into(&self.v, w) }
        fn deserialize_from<R: std::io::Read>(r: R) -> $crate::serdes::SerdeResult<Self> { Ok($t { v: (<$bytes as $crate::serdes::ExpSerde>::deserialize_from(r)? as u64 % Self::P) as $bytes }) }
    }
    impl $crate::Field for $t {
        const NAME: &'static str = $name;
        const SIZE: usize = std::mem::size_of::<$bytes>();
        const FIELD_SIZE: usize = $bits;
        const ZERO: Self = $t { v: 0 };
        const ONE: Self = $t { v: 1 };
        const MODULUS: $crate::ethnum::U256 = $crate::ethnum::U256::new($p as u128);
        fn random_unsafe(mut rng: impl $crate::rand::RngCore) -> Self { $t { v: (rng.next_u64() % Self::P) as $bytes } }
        fn inv(&self) -> Option<Self> { if self.v == 0 { None } else { Some($crate::Field::exp(self, Self::P as u128 - 2)) } }
        fn to_u256(&self) -> $crate::ethnum::U256 { $crate::ethnum::U256::from(self.v as u64) }
        fn from_u256(x: $crate::ethnum::U256) -> Self { $t { v: (x % $crate::ethnum::U256::from(Self::P)).as_u64() as $bytes } }
    }
} }
#[macro_export]
macro_rules! simd_field { ($t:ident, $s:ty, $n:expr, $name:expr) => {
    #[derive(Debug, Clone, Copy, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
    pub struct $t { pub v: [$s; $n] }
    impl std::ops::Add for $t { type Output = $t; fn add(self, o: $t) -> $t { $t { v: std::array::from_fn(|i| self.v[i] + o.v[i]) } } }
    impl std::ops::Sub for $t { type Output = $t; fn sub(self, o: $t) -> $t { $t { v: std::array::from_fn(|i| self.v[i] - o.v[i]) } } }
    impl std::ops::Mul for $t { type Output = $t; fn mul(self, o: $t) -> $t { $t { v: std::array::from_fn(|i| self.v[i] * o.v[i]) } } }
    $crate::derived_ops!($t);
    impl From<u32> for $t { fn from(x: u32) -> Self { $t { v: [<$s>::from(x); $n] } } }
    impl From<$s> for $t { fn from(x: $s) -> Self { $t { v: [x; $n] } } }
    impl $crate::serdes::ExpSerde for $t {
        fn serialize_into<W: std::io::Write>(&self, w: W) -> $crate::serdes::SerdeResult<()> { $crate::serdes::ExpSerde::serialize_into(&self.v, w) }
        fn deserialize_from<R: std::io::Read>(r: R) -> $crate::serdes::SerdeResult<Self> { Ok($t { v: $crate::serdes::ExpSerde::deserialize_from(r)? }) }
    }
    impl $crate::Field for $t {
        const NAME: &'static str = $name;
        const SIZE: usize = <$s as $crate::Field>::SIZE * $n;
        const FIELD_SIZE: usize = <$s as $crate::Field>::FIELD_SIZE;
        const ZERO: Self = $t { v: [<$s as $crate::Field>::ZERO; $n] };
        const ONE: Self = $t { v: [<$s as $crate::Field>::ONE; $n] };
        const MODULUS: $crate::ethnum::U256 = <$s as $crate::Field>::MODULUS;
        fn random_unsafe(mut rng: impl $crate::rand::RngCore) -> Self { $t { v: std::array::from_fn(|_| <$s as $crate::Field>::random_unsafe(&mut rng)) } }
        fn inv(&self) -> Option<Self> { let mut r = *self; for x in r.v.iter_mut() { *x = $crate::Field::inv(x)?; } Some(r) }
        fn to_u256(&self) -> $crate::ethnum::U256 { unimplemented!() }
        fn from_u256(x: $crate::ethnum::U256) -> Self { $t { v: [<$s as $crate::Field>::from_u256(x); $n] } }
    }
    impl $crate::SimdField for $t {
        type Scalar = $s;
        const PACK_SIZE: usize = $n;
        fn scale(&self, c: &$s) -> Self { let mut r = *self; for x in r.v.iter_mut() { *x = *x * *c; } r }
        fn pack(v: &[$s]) -> Self { assert_eq!(v.len(), $n); $t { v: std::array::from_fn(|i| v[i]) } }
        fn unpack(&self) -> Vec<$s> { self.v.to_vec() }
    }
} }

/// BN254 scalar field, canonical representation in a U256.
#[derive(Debug, Clone, Copy, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Fr(pub U256);
pub const BN254_P: U256 = U256::from_words(0x30644e72e131a029b85045b68181585d, 0x2833e84879b9709143e1f593f0000001);
fn mulmod(a: U256, b: U256) -> U256 {
    let a = a.into_words(); let b = b.into_words(); // (hi, lo)
    let x = [a.1 as u64, (a.1 >> 64) as u64, a.0 as u64, (a.0 >> 64) as u64];
    let y = [b.1 as u64, (b.1 >> 64) as u64, b.0 as u64, (b.0 >> 64) as u64];
    let mut t = [0u64; 8];
    for i in 0..4 { let mut c: u128 = 0; for j in 0..4 { let s = t[i + j] as u128 + x[i] as u128 * y[j] as u128 + c; t[i + j] = s as u64; c = s >> 64; } t[i + 4] = c as u64; }
    // reduce: fold in 32-bit chunks from the top; r < p < 2^254 and there is no room for a 64-bit shift
    let mut r = U256::ZERO;
    for i in (0..8).rev() { for k in (0..32).rev() { r = (r << 2) | U256::from((t[i] >> (2 * k)) & 3); if r >= (BN254_P << 1) { r -= BN254_P << 1; } if r >= BN254_P { r -= BN254_P; } } }
    r
}
impl Add for Fr { type Output = Fr; fn add(self, o: Fr) -> Fr { let s = self.0 + o.0; Fr(if s >= BN254_P { s - BN254_P } else { s }) } }
impl Sub for Fr { type Output = Fr; fn sub(self, o: Fr) -> Fr { Fr(if self.0 >= o.0 { self.0 - o.0 } else { self.0 + BN254_P - o.0 }) } }
impl Mul for Fr { type Output = Fr; fn mul(self, o: Fr) -> Fr { Fr(mulmod(self.0, o.0)) } }
derived_ops!(Fr);
impl From<u32> for Fr { fn from(x: u32) -> Self { Fr(U256::from(x)) } }
impl ExpSerde for Fr {
    fn serialize_into<W: std::io::Write>(&self, w: W) -> serdes::SerdeResult<()> { self.0.serialize_into(w) }
    fn deserialize_from<R: std::io::Read>(r: R) -> serdes::SerdeResult<Self> { Ok(Fr(U256::deserialize_from(r)? % BN254_P)) }
}
impl Field for Fr {
    const NAME: &'static str = "bn254 scalar field";
    const SIZE: usize = 32;
    const FIELD_SIZE: usize = 256;
    const ZERO: Self = Fr(U256::ZERO);
    const ONE: Self = Fr(U256::ONE);
    const MODULUS: U256 = BN254_P;
    fn random_unsafe(mut rng: impl RngCore) -> Self { let mut b = [0u8; 32]; rng.fill_bytes(&mut b); Fr(U256::from_le_bytes(b) % BN254_P) }
    fn inv(&self) -> Option<Self> {
        if self.is_zero() { return None; }
        let mut e = BN254_P - U256::from(2u32); let mut b = *self; let mut r = Fr::ONE;
        while e > U256::ZERO { if e & U256::ONE == U256::ONE { r *= b; } b = b * b; e >>= 1; }
        Some(r)
    }
    fn to_u256(&self) -> U256 { self.0 }
    fn from_u256(x: U256) -> Self { Fr(x % BN254_P) }
}
impl SimdField for Fr {
    type Scalar = Fr;
    const PACK_SIZE: usize = 1;
    fn scale(&self, c: &Fr) -> Self { *self * *c }
    fn pack(v: &[Fr]) -> Self { assert_eq!(v.len(), 1); v[0] }
    fn unpack(&self) -> Vec<Fr> { vec![*self] }
}
