//! A toy pairing engine over an arbitrary prime, small enough that the TLA+
//! specification can do the same arithmetic with TLC's 32-bit integers.
//! Every group is the additive group of the field ("everything in the
//! exponent"), with distinct types for G1, G2, Gt and Miller-loop results.

use std::fmt;
use std::iter::{Product, Sum};
use std::ops::*;

use ff::{Field, FieldBits, PrimeField, PrimeFieldBits};
use group::cofactor::{CofactorCurve, CofactorCurveAffine, CofactorGroup};
use group::prime::{PrimeCurve, PrimeCurveAffine, PrimeGroup};
use group::{Curve, Group, GroupEncoding, UncompressedEncoding, WnafGroup};
use pairing::{Engine, MillerLoopResult, MultiMillerLoop, PairingCurveAffine};
use rand_core::RngCore;
use subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption};

pub const fn mulm(a: u64, b: u64, p: u64) -> u64 {
    ((a as u128 * b as u128) % p as u128) as u64
}
pub const fn powm(mut b: u64, mut e: u64, p: u64) -> u64 {
    let mut r = 1 % p;
    b %= p;
    while e > 0 {
        if e & 1 == 1 {
            r = mulm(r, b, p);
        }
        b = mulm(b, b, p);
        e >>= 1;
    }
    r
}
/// Smallest generator of the multiplicative group mod p.
pub const fn generator(p: u64) -> u64 {
    if p == 2 {
        return 1;
    }
    let mut fs = [0u64; 16];
    let mut nf = 0;
    let mut n = p - 1;
    let mut d = 2;
    while d * d <= n {
        if n % d == 0 {
            fs[nf] = d;
            nf += 1;
            while n % d == 0 {
                n /= d;
            }
        }
        d += 1;
    }
    if n > 1 {
        fs[nf] = n;
        nf += 1;
    }
    let mut g = 2;
    loop {
        let mut ok = true;
        let mut i = 0;
        while i < nf {
            if powm(g, (p - 1) / fs[i], p) == 1 {
                ok = false;
                break;
            }
            i += 1;
        }
        if ok {
            return g;
        }
        g += 1;
    }
}

#[derive(Copy, Clone, PartialEq, Eq, Default, PartialOrd, Ord, Hash)]
pub struct Fp<const P: u64>(pub u64);

impl<const P: u64> fmt::Debug for Fp<P> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl<const P: u64> Fp<P> {
    pub fn new(v: u64) -> Self {
        Fp(v % P)
    }
}
impl<const P: u64> From<u64> for Fp<P> {
    fn from(v: u64) -> Self {
        Fp(v % P)
    }
}
impl<const P: u64> ConstantTimeEq for Fp<P> {
    fn ct_eq(&self, o: &Self) -> Choice {
        self.0.ct_eq(&o.0)
    }
}
impl<const P: u64> ConditionallySelectable for Fp<P> {
    fn conditional_select(a: &Self, b: &Self, c: Choice) -> Self {
        Fp(u64::conditional_select(&a.0, &b.0, c))
    }
}

macro_rules! additive {
    ($t:ident) => {
        impl<const P: u64> Neg for $t<P> {
            type Output = Self;
            fn neg(self) -> Self {
                $t(if self.0 == 0 { 0 } else { P - self.0 })
            }
        }
        impl<'a, const P: u64> Add<&'a $t<P>> for $t<P> {
            type Output = Self;
            fn add(self, o: &Self) -> Self {
                $t(((self.0 as u128 + o.0 as u128) % P as u128) as u64)
            }
        }
        impl<'a, const P: u64> Sub<&'a $t<P>> for $t<P> {
            type Output = Self;
            fn sub(self, o: &Self) -> Self {
                self + &(-*o)
            }
        }
        impl<const P: u64> Add for $t<P> {
            type Output = Self;
            fn add(self, o: Self) -> Self {
                self + &o
            }
        }
        impl<const P: u64> Sub for $t<P> {
            type Output = Self;
            fn sub(self, o: Self) -> Self {
                self - &o
            }
        }
        impl<const P: u64> AddAssign for $t<P> {
            fn add_assign(&mut self, o: Self) {
                *self = *self + &o
            }
        }
        impl<const P: u64> SubAssign for $t<P> {
            fn sub_assign(&mut self, o: Self) {
                *self = *self - &o
            }
        }
        impl<'a, const P: u64> AddAssign<&'a $t<P>> for $t<P> {
            fn add_assign(&mut self, o: &Self) {
                *self = *self + o
            }
        }
        impl<'a, const P: u64> SubAssign<&'a $t<P>> for $t<P> {
            fn sub_assign(&mut self, o: &Self) {
                *self = *self - o
            }
        }
        impl<const P: u64> Sum for $t<P> {
            fn sum<I: Iterator<Item = Self>>(i: I) -> Self {
                i.fold($t(0), |a, b| a + b)
            }
        }
        impl<'a, const P: u64> Sum<&'a $t<P>> for $t<P> {
            fn sum<I: Iterator<Item = &'a Self>>(i: I) -> Self {
                i.fold($t(0), |a, b| a + b)
            }
        }
        impl<'a, const P: u64> Mul<&'a Fp<P>> for $t<P> {
            type Output = Self;
            fn mul(self, o: &Fp<P>) -> Self {
                $t(mulm(self.0, o.0, P))
            }
        }
        impl<const P: u64> Mul<Fp<P>> for $t<P> {
            type Output = Self;
            fn mul(self, o: Fp<P>) -> Self {
                self * &o
            }
        }
        impl<const P: u64> MulAssign<Fp<P>> for $t<P> {
            fn mul_assign(&mut self, o: Fp<P>) {
                *self = *self * &o
            }
        }
        impl<'a, const P: u64> MulAssign<&'a Fp<P>> for $t<P> {
            fn mul_assign(&mut self, o: &Fp<P>) {
                *self = *self * o
            }
        }
    };
}
additive!(Fp);

impl<const P: u64> Product for Fp<P> {
    fn product<I: Iterator<Item = Self>>(i: I) -> Self {
        i.fold(Fp(1), |a, b| a * b)
    }
}
impl<'a, const P: u64> Product<&'a Fp<P>> for Fp<P> {
    fn product<I: Iterator<Item = &'a Self>>(i: I) -> Self {
        i.fold(Fp(1), |a, b| a * b)
    }
}

impl<const P: u64> Field for Fp<P> {
    const ZERO: Self = Fp(0);
    const ONE: Self = Fp(1);
    /// Takes one 64-bit word from the generator and reduces it, so a scripted
    /// generator decides exactly which element is drawn.
    fn random(mut rng: impl RngCore) -> Self {
        Fp(rng.next_u64() % P)
    }
    fn square(&self) -> Self {
        *self * *self
    }
    fn double(&self) -> Self {
        *self + *self
    }
    fn invert(&self) -> CtOption<Self> {
        CtOption::new(
            Fp(powm(self.0, P - 2, P)),
            Choice::from((self.0 != 0) as u8),
        )
    }
    fn sqrt_ratio(_: &Self, _: &Self) -> (Choice, Self) {
        unimplemented!("square roots are not used by the code under test")
    }
}

const fn nbits(p: u64) -> u32 {
    64 - p.leading_zeros()
}

impl<const P: u64> PrimeField for Fp<P> {
    type Repr = [u8; 32];
    fn from_repr(r: [u8; 32]) -> CtOption<Self> {
        let mut b = [0u8; 8];
        b.copy_from_slice(&r[..8]);
        let v = u64::from_le_bytes(b);
        let ok = v < P && r[8..].iter().all(|x| *x == 0);
        CtOption::new(Fp(if ok { v } else { 0 }), Choice::from(ok as u8))
    }
    fn to_repr(&self) -> [u8; 32] {
        let mut r = [0u8; 32];
        r[..8].copy_from_slice(&self.0.to_le_bytes());
        r
    }
    fn is_odd(&self) -> Choice {
        Choice::from((self.0 & 1) as u8)
    }
    const MODULUS: &'static str = "toy";
    const NUM_BITS: u32 = nbits(P);
    const CAPACITY: u32 = nbits(P) - 1;
    const TWO_INV: Self = Fp((P / 2) + 1);
    const MULTIPLICATIVE_GENERATOR: Self = Fp(generator(P));
    const S: u32 = (P - 1).trailing_zeros();
    const ROOT_OF_UNITY: Self = Fp(powm(generator(P), (P - 1) >> (P - 1).trailing_zeros(), P));
    const ROOT_OF_UNITY_INV: Self = Fp(powm(
        powm(generator(P), (P - 1) >> (P - 1).trailing_zeros(), P),
        P - 2,
        P,
    ));
    const DELTA: Self = Fp(powm(generator(P), 1 << (P - 1).trailing_zeros(), P));
}

impl<const P: u64> PrimeFieldBits for Fp<P> {
    type ReprBits = [u64; 2];
    fn to_le_bits(&self) -> FieldBits<[u64; 2]> {
        FieldBits::new([self.0, 0])
    }
    fn char_le_bits() -> FieldBits<[u64; 2]> {
        FieldBits::new([P, 0])
    }
}

macro_rules! point {
    ($t:ident, $pair:ident, $csize:expr, $usize:expr) => {
        #[derive(Copy, Clone, PartialEq, Eq, Default, PartialOrd, Ord, Hash)]
        pub struct $t<const P: u64>(pub u64);
        impl<const P: u64> fmt::Debug for $t<P> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                write!(f, "{}", self.0)
            }
        }
        additive!($t);
        impl<const P: u64> Group for $t<P> {
            type Scalar = Fp<P>;
            fn random(mut rng: impl RngCore) -> Self {
                loop {
                    let v = rng.next_u64() % P;
                    if v != 0 {
                        return $t(v);
                    }
                }
            }
            fn identity() -> Self {
                $t(0)
            }
            fn generator() -> Self {
                $t(1)
            }
            fn is_identity(&self) -> Choice {
                Choice::from((self.0 == 0) as u8)
            }
            fn double(&self) -> Self {
                *self + *self
            }
        }
        impl<const P: u64> PrimeGroup for $t<P> {}
        impl<const P: u64> Curve for $t<P> {
            type AffineRepr = Self;
            fn to_affine(&self) -> Self {
                *self
            }
        }
        impl<const P: u64> PrimeCurve for $t<P> {
            type Affine = Self;
        }
        impl<const P: u64> PrimeCurveAffine for $t<P> {
            type Scalar = Fp<P>;
            type Curve = Self;
            fn identity() -> Self {
                $t(0)
            }
            fn generator() -> Self {
                $t(1)
            }
            fn is_identity(&self) -> Choice {
                Choice::from((self.0 == 0) as u8)
            }
            fn to_curve(&self) -> Self {
                *self
            }
        }
        impl<const P: u64> CofactorGroup for $t<P> {
            type Subgroup = Self;
            fn clear_cofactor(&self) -> Self {
                *self
            }
            fn into_subgroup(self) -> CtOption<Self> {
                CtOption::new(self, Choice::from(1))
            }
            fn is_torsion_free(&self) -> Choice {
                Choice::from(1)
            }
        }
        impl<const P: u64> CofactorCurve for $t<P> {
            type Affine = Self;
        }
        impl<const P: u64> CofactorCurveAffine for $t<P> {
            type Scalar = Fp<P>;
            type Curve = Self;
            fn identity() -> Self {
                $t(0)
            }
            fn generator() -> Self {
                $t(1)
            }
            fn is_identity(&self) -> Choice {
                Choice::from((self.0 == 0) as u8)
            }
            fn to_curve(&self) -> Self {
                *self
            }
        }
        impl<const P: u64> WnafGroup for $t<P> {
            fn recommended_wnaf_for_num_scalars(_: usize) -> usize {
                3
            }
        }
        impl<const P: u64> $t<P> {
            /// Encoding: [flag, value (8 bytes LE), zero padding].
            /// flag 0: element of the prime-order group (value != 0);
            /// flag 1: identity (value == 0);
            /// flag 2: on the curve but outside the subgroup: only an
            ///         unchecked read accepts it;
            /// anything else: rejected by both.
            fn enc(&self, out: &mut [u8]) {
                for b in out.iter_mut() {
                    *b = 0;
                }
                out[0] = (self.0 == 0) as u8;
                out[1..9].copy_from_slice(&self.0.to_le_bytes());
            }
            fn dec(b: &[u8], checked: bool) -> CtOption<Self> {
                let mut x = [0u8; 8];
                x.copy_from_slice(&b[1..9]);
                let v = u64::from_le_bytes(x);
                let pad = b[9..].iter().all(|c| *c == 0);
                let ok = pad
                    && match b[0] {
                        0 => v != 0 && v < P,
                        1 => v == 0,
                        2 => !checked && v != 0 && v < P,
                        _ => false,
                    };
                CtOption::new($t(if ok { v } else { 0 }), Choice::from(ok as u8))
            }
        }
        impl<const P: u64> GroupEncoding for $t<P> {
            type Repr = [u8; $csize];
            fn from_bytes(b: &Self::Repr) -> CtOption<Self> {
                Self::dec(b, true)
            }
            fn from_bytes_unchecked(b: &Self::Repr) -> CtOption<Self> {
                Self::dec(b, false)
            }
            fn to_bytes(&self) -> Self::Repr {
                let mut r = [0u8; $csize];
                self.enc(&mut r);
                r
            }
        }
        impl<const P: u64> UncompressedEncoding for $t<P> {
            type Uncompressed = [u8; $usize];
            fn from_uncompressed(b: &Self::Uncompressed) -> CtOption<Self> {
                Self::dec(b, true)
            }
            fn from_uncompressed_unchecked(b: &Self::Uncompressed) -> CtOption<Self> {
                Self::dec(b, false)
            }
            fn to_uncompressed(&self) -> Self::Uncompressed {
                let mut r = [0u8; $usize];
                self.enc(&mut r);
                r
            }
        }
        impl<const P: u64> PairingCurveAffine for $t<P> {
            type Pair = $pair<P>;
            type PairingResult = Gt<P>;
            fn pairing_with(&self, o: &$pair<P>) -> Gt<P> {
                Gt(mulm(self.0, o.0, P))
            }
        }
    };
}
point!(G1, G2, 9, 10);
point!(G2, G1, 11, 12);

#[derive(Copy, Clone, PartialEq, Eq, Default, PartialOrd, Ord, Hash, Debug)]
pub struct Gt<const P: u64>(pub u64);
additive!(Gt);
impl<const P: u64> Group for Gt<P> {
    type Scalar = Fp<P>;
    fn random(mut rng: impl RngCore) -> Self {
        Gt(1 + rng.next_u64() % (P - 1))
    }
    fn identity() -> Self {
        Gt(0)
    }
    fn generator() -> Self {
        Gt(1)
    }
    fn is_identity(&self) -> Choice {
        Choice::from((self.0 == 0) as u8)
    }
    fn double(&self) -> Self {
        *self + *self
    }
}

/// When set, records what final exponentiations are applied to.
pub static FINALS: std::sync::Mutex<Option<Vec<u64>>> = std::sync::Mutex::new(None);

#[derive(Copy, Clone, PartialEq, Eq, Default, Debug)]
pub struct Ml<const P: u64>(pub u64);
additive!(Ml);
impl<const P: u64> MillerLoopResult for Ml<P> {
    type Gt = Gt<P>;
    fn final_exponentiation(&self) -> Gt<P> {
        if let Some(v) = FINALS.lock().unwrap().as_mut() {
            v.push(self.0);
        }
        Gt(self.0)
    }
}

#[derive(Copy, Clone, Debug)]
pub struct Prep<const P: u64>(pub u64);
impl<const P: u64> From<G2<P>> for Prep<P> {
    fn from(g: G2<P>) -> Self {
        Prep(g.0)
    }
}

#[derive(Clone, Debug)]
pub struct Toy<const P: u64>;
impl<const P: u64> Engine for Toy<P> {
    type Fr = Fp<P>;
    type G1 = G1<P>;
    type G1Affine = G1<P>;
    type G2 = G2<P>;
    type G2Affine = G2<P>;
    type Gt = Gt<P>;
    fn pairing(p: &G1<P>, q: &G2<P>) -> Gt<P> {
        Gt(mulm(p.0, q.0, P))
    }
}
impl<const P: u64> MultiMillerLoop for Toy<P> {
    type G2Prepared = Prep<P>;
    type Result = Ml<P>;
    fn multi_miller_loop(terms: &[(&G1<P>, &Prep<P>)]) -> Ml<P> {
        terms.iter().map(|(a, b)| Ml::<P>(mulm(a.0, b.0, P))).sum()
    }
}
