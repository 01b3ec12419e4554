//! The additive group Z_q with scalars of an unrelated, large field: the code
//! under test only ever adds and doubles, with exponents taken bit by bit.
use std::fmt;
use std::iter::Sum;
use std::marker::PhantomData;
use std::ops::*;

use ff::PrimeFieldBits;
use group::prime::{PrimeCurve, PrimeCurveAffine, PrimeGroup};
use group::{Curve, Group, GroupEncoding};
use rand_core::RngCore;
use subtle::{Choice, CtOption};

pub const Q: u64 = 40961;

pub struct Zq<S>(pub u64, PhantomData<S>);
pub const fn zq<S>(v: u64) -> Zq<S> {
    Zq(v % Q, PhantomData)
}
impl<S> Clone for Zq<S> {
    fn clone(&self) -> Self {
        *self
    }
}
impl<S> Copy for Zq<S> {}
impl<S> Default for Zq<S> {
    fn default() -> Self {
        zq(0)
    }
}
impl<S> PartialEq for Zq<S> {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
impl<S> Eq for Zq<S> {}
impl<S> fmt::Debug for Zq<S> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl<S> Neg for Zq<S> {
    type Output = Self;
    fn neg(self) -> Self {
        zq(Q - self.0)
    }
}
impl<'a, S> Add<&'a Zq<S>> for Zq<S> {
    type Output = Self;
    fn add(self, o: &Self) -> Self {
        zq(self.0 + o.0)
    }
}
impl<'a, S> Sub<&'a Zq<S>> for Zq<S> {
    type Output = Self;
    fn sub(self, o: &Self) -> Self {
        zq(self.0 + Q - o.0)
    }
}
impl<S> Add for Zq<S> {
    type Output = Self;
    fn add(self, o: Self) -> Self {
        self + &o
    }
}
impl<S> Sub for Zq<S> {
    type Output = Self;
    fn sub(self, o: Self) -> Self {
        self - &o
    }
}
impl<S> AddAssign for Zq<S> {
    fn add_assign(&mut self, o: Self) {
        *self = *self + o
    }
}
impl<S> SubAssign for Zq<S> {
    fn sub_assign(&mut self, o: Self) {
        *self = *self - o
    }
}
impl<'a, S> AddAssign<&'a Zq<S>> for Zq<S> {
    fn add_assign(&mut self, o: &Self) {
        *self = *self + o
    }
}
impl<'a, S> SubAssign<&'a Zq<S>> for Zq<S> {
    fn sub_assign(&mut self, o: &Self) {
        *self = *self - o
    }
}
impl<S> Sum for Zq<S> {
    fn sum<I: Iterator<Item = Self>>(i: I) -> Self {
        i.fold(zq(0), |a, b| a + b)
    }
}
impl<'a, S> Sum<&'a Zq<S>> for Zq<S> {
    fn sum<I: Iterator<Item = &'a Self>>(i: I) -> Self {
        i.fold(zq(0), |a, b| a + b)
    }
}
fn times<S: PrimeFieldBits>(v: u64, s: &S) -> u64 {
    s.to_le_bits()
        .iter()
        .by_vals()
        .rev()
        .fold(0, |acc, b| (2 * acc + if b { v } else { 0 }) % Q)
}
impl<'a, S: PrimeFieldBits> Mul<&'a S> for Zq<S> {
    type Output = Self;
    fn mul(self, o: &S) -> Self {
        zq(times(self.0, o))
    }
}
impl<S: PrimeFieldBits> Mul<S> for Zq<S> {
    type Output = Self;
    fn mul(self, o: S) -> Self {
        zq(times(self.0, &o))
    }
}
impl<'a, S: PrimeFieldBits> MulAssign<&'a S> for Zq<S> {
    fn mul_assign(&mut self, o: &S) {
        self.0 = times(self.0, o)
    }
}
impl<S: PrimeFieldBits> MulAssign<S> for Zq<S> {
    fn mul_assign(&mut self, o: S) {
        self.0 = times(self.0, &o)
    }
}
impl<S: PrimeFieldBits> Group for Zq<S> {
    type Scalar = S;
    fn random(mut rng: impl RngCore) -> Self {
        zq(rng.next_u64())
    }
    fn identity() -> Self {
        zq(0)
    }
    fn generator() -> Self {
        zq(1)
    }
    fn is_identity(&self) -> Choice {
        Choice::from((self.0 == 0) as u8)
    }
    fn double(&self) -> Self {
        *self + *self
    }
}
impl<S: PrimeFieldBits> GroupEncoding for Zq<S> {
    type Repr = [u8; 8];
    fn from_bytes(b: &[u8; 8]) -> CtOption<Self> {
        CtOption::new(zq(u64::from_le_bytes(*b)), Choice::from(1))
    }
    fn from_bytes_unchecked(b: &[u8; 8]) -> CtOption<Self> {
        Self::from_bytes(b)
    }
    fn to_bytes(&self) -> [u8; 8] {
        self.0.to_le_bytes()
    }
}
impl<S: PrimeFieldBits> PrimeGroup for Zq<S> {}
impl<S: PrimeFieldBits> Curve for Zq<S> {
    type AffineRepr = Self;
    fn to_affine(&self) -> Self {
        *self
    }
}
impl<S: PrimeFieldBits> PrimeCurve for Zq<S> {
    type Affine = Self;
}
impl<S: PrimeFieldBits> PrimeCurveAffine for Zq<S> {
    type Scalar = S;
    type Curve = Self;
    fn identity() -> Self {
        zq(0)
    }
    fn generator() -> Self {
        zq(1)
    }
    fn is_identity(&self) -> Choice {
        Choice::from((self.0 == 0) as u8)
    }
    fn to_curve(&self) -> Self {
        *self
    }
}
