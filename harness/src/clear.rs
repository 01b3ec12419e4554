//! A pairing engine over the real BLS12-381 scalar field whose groups are the
//! additive group of that field ("everything in the exponent"): what a 255-bit
//! engine would keep secret can be read off, so that the specification can judge
//! the secrets the code draws.

use std::fmt;
use std::iter::Sum;
use std::ops::*;

use bls12_381::Scalar;
use ff::{Field, PrimeField};
use group::cofactor::{CofactorCurve, CofactorCurveAffine, CofactorGroup};
use group::prime::{PrimeCurve, PrimeCurveAffine, PrimeGroup};
use group::{Curve, Group, GroupEncoding, UncompressedEncoding, WnafGroup};
use pairing::{Engine, MillerLoopResult, MultiMillerLoop, PairingCurveAffine};
use rand_core::RngCore;
use subtle::{Choice, CtOption};

macro_rules! additive {
    ($t:ident) => {
        impl Neg for $t {
            type Output = Self;
            fn neg(self) -> Self {
                $t(-self.0)
            }
        }
        impl<'a> Add<&'a $t> for $t {
            type Output = Self;
            fn add(self, o: &Self) -> Self {
                $t(self.0 + o.0)
            }
        }
        impl<'a> Sub<&'a $t> for $t {
            type Output = Self;
            fn sub(self, o: &Self) -> Self {
                self + &(-*o)
            }
        }
        impl Add for $t {
            type Output = Self;
            fn add(self, o: Self) -> Self {
                self + &o
            }
        }
        impl Sub for $t {
            type Output = Self;
            fn sub(self, o: Self) -> Self {
                self - &o
            }
        }
        impl AddAssign for $t {
            fn add_assign(&mut self, o: Self) {
                *self = *self + &o
            }
        }
        impl SubAssign for $t {
            fn sub_assign(&mut self, o: Self) {
                *self = *self - &o
            }
        }
        impl<'a> AddAssign<&'a $t> for $t {
            fn add_assign(&mut self, o: &Self) {
                *self = *self + o
            }
        }
        impl<'a> SubAssign<&'a $t> for $t {
            fn sub_assign(&mut self, o: &Self) {
                *self = *self - o
            }
        }
        impl Sum for $t {
            fn sum<I: Iterator<Item = Self>>(i: I) -> Self {
                i.fold($t(Scalar::zero()), |a, b| a + b)
            }
        }
        impl<'a> Sum<&'a $t> for $t {
            fn sum<I: Iterator<Item = &'a Self>>(i: I) -> Self {
                i.fold($t(Scalar::zero()), |a, b| a + b)
            }
        }
        impl<'a> Mul<&'a Scalar> for $t {
            type Output = Self;
            fn mul(self, o: &Scalar) -> Self {
                $t(self.0 * o)
            }
        }
        impl Mul<Scalar> for $t {
            type Output = Self;
            fn mul(self, o: Scalar) -> Self {
                self * &o
            }
        }
        impl MulAssign<Scalar> for $t {
            fn mul_assign(&mut self, o: Scalar) {
                *self = *self * &o
            }
        }
        impl<'a> MulAssign<&'a Scalar> for $t {
            fn mul_assign(&mut self, o: &Scalar) {
                *self = *self * o
            }
        }
    };
}
macro_rules! point {
    ($t:ident, $pair:ident, $csize:expr, $usize:expr) => {
        #[derive(Copy, Clone, PartialEq, Eq, Default)]
        pub struct $t(pub Scalar);
        impl fmt::Debug for $t {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                write!(f, "{:?}", self.0)
            }
        }
        additive!($t);
        impl Group for $t {
            type Scalar = Scalar;
            fn random(mut rng: impl RngCore) -> Self {
                loop {
                    let v = Scalar::random(&mut rng);
                    if v != Scalar::zero() {
                        return $t(v);
                    }
                }
            }
            fn identity() -> Self {
                $t(Scalar::zero())
            }
            fn generator() -> Self {
                $t(Scalar::one())
            }
            fn is_identity(&self) -> Choice {
                Choice::from((self.0 == Scalar::zero()) as u8)
            }
            fn double(&self) -> Self {
                *self + *self
            }
        }
        impl PrimeGroup for $t {}
        impl Curve for $t {
            type AffineRepr = Self;
            fn to_affine(&self) -> Self {
                *self
            }
        }
        impl PrimeCurve for $t {
            type Affine = Self;
        }
        impl PrimeCurveAffine for $t {
            type Scalar = Scalar;
            type Curve = Self;
            fn identity() -> Self {
                $t(Scalar::zero())
            }
            fn generator() -> Self {
                $t(Scalar::one())
            }
            fn is_identity(&self) -> Choice {
                Choice::from((self.0 == Scalar::zero()) as u8)
            }
            fn to_curve(&self) -> Self {
                *self
            }
        }
        impl CofactorGroup for $t {
            type Subgroup = Self;
            fn clear_cofactor(&self) -> Self {
                *self
            }
            fn into_subgroup(self) -> CtOption<Self> {
                CtOption::new(self, Choice::from(1))
            }
            fn is_torsion_free(&self) -> Choice {
                Choice::from(1)
            }
        }
        impl CofactorCurve for $t {
            type Affine = Self;
        }
        impl CofactorCurveAffine for $t {
            type Scalar = Scalar;
            type Curve = Self;
            fn identity() -> Self {
                $t(Scalar::zero())
            }
            fn generator() -> Self {
                $t(Scalar::one())
            }
            fn is_identity(&self) -> Choice {
                Choice::from((self.0 == Scalar::zero()) as u8)
            }
            fn to_curve(&self) -> Self {
                *self
            }
        }
        impl WnafGroup for $t {
            fn recommended_wnaf_for_num_scalars(_: usize) -> usize {
                3
            }
        }
        impl $t {
            fn enc(&self, out: &mut [u8]) {
                out.copy_from_slice(&self.0.to_repr());
            }
            fn dec(b: &[u8]) -> CtOption<Self> {
                let mut x = [0u8; 32];
                x.copy_from_slice(b);
                let v = Scalar::from_repr(x);
                let ok = bool::from(v.is_some());
                CtOption::new($t(v.unwrap_or(Scalar::zero())), Choice::from(ok as u8))
            }
        }
        impl GroupEncoding for $t {
            type Repr = [u8; $csize];
            fn from_bytes(b: &Self::Repr) -> CtOption<Self> {
                Self::dec(b)
            }
            fn from_bytes_unchecked(b: &Self::Repr) -> CtOption<Self> {
                Self::dec(b)
            }
            fn to_bytes(&self) -> Self::Repr {
                let mut r = [0u8; $csize];
                self.enc(&mut r);
                r
            }
        }
        impl UncompressedEncoding for $t {
            type Uncompressed = [u8; $usize];
            fn from_uncompressed(b: &Self::Uncompressed) -> CtOption<Self> {
                Self::dec(b)
            }
            fn from_uncompressed_unchecked(b: &Self::Uncompressed) -> CtOption<Self> {
                Self::dec(b)
            }
            fn to_uncompressed(&self) -> Self::Uncompressed {
                let mut r = [0u8; $usize];
                self.enc(&mut r);
                r
            }
        }
        impl PairingCurveAffine for $t {
            type Pair = $pair;
            type PairingResult = Gt;
            fn pairing_with(&self, o: &$pair) -> Gt {
                Gt(self.0 * o.0)
            }
        }
    };
}
point!(G1, G2, 32, 32);
point!(G2, G1, 32, 32);

#[derive(Copy, Clone, PartialEq, Eq, Default, Debug)]
pub struct Gt(pub Scalar);
additive!(Gt);
impl Group for Gt {
    type Scalar = Scalar;
    fn random(mut rng: impl RngCore) -> Self {
        Gt(Scalar::random(&mut rng))
    }
    fn identity() -> Self {
        Gt(Scalar::zero())
    }
    fn generator() -> Self {
        Gt(Scalar::one())
    }
    fn is_identity(&self) -> Choice {
        Choice::from((self.0 == Scalar::zero()) as u8)
    }
    fn double(&self) -> Self {
        *self + *self
    }
}

/// When set, records what final exponentiations are applied to.
pub static FINALS: std::sync::Mutex<Option<Vec<Scalar>>> = std::sync::Mutex::new(None);

#[derive(Copy, Clone, PartialEq, Eq, Default, Debug)]
pub struct Ml(pub Scalar);
additive!(Ml);
impl MillerLoopResult for Ml {
    type Gt = Gt;
    fn final_exponentiation(&self) -> Gt {
        if let Some(v) = FINALS.lock().unwrap().as_mut() {
            v.push(self.0);
        }
        Gt(self.0)
    }
}

#[derive(Copy, Clone, Debug)]
pub struct Prep(pub Scalar);
impl From<G2> for Prep {
    fn from(g: G2) -> Self {
        Prep(g.0)
    }
}

#[derive(Clone, Debug)]
pub struct Clear;
impl Engine for Clear {
    type Fr = Scalar;
    type G1 = G1;
    type G1Affine = G1;
    type G2 = G2;
    type G2Affine = G2;
    type Gt = Gt;
    fn pairing(p: &G1, q: &G2) -> Gt {
        Gt(p.0 * q.0)
    }
}
impl MultiMillerLoop for Clear {
    type G2Prepared = Prep;
    type Result = Ml;
    fn multi_miller_loop(terms: &[(&G1, &Prep)]) -> Ml {
        terms.iter().map(|(a, b)| Ml(a.0 * b.0)).sum()
    }
}
