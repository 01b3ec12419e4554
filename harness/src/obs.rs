//! Observing Booleans: what they claim and what their combination is worth.
use crate::rec::{lc_of, Lc, Rec};
use crate::J;
use bellman::gadgets::boolean::Boolean;
use bellman::ConstraintSystem;
use ff::PrimeField;

/// The value a Boolean claims: 0, 1 or -1 (unknown).
pub fn claim(b: &Boolean) -> i64 {
    match b.get_value() {
        None => -1,
        Some(v) => v as i64,
    }
}
pub fn claims(b: &[Boolean]) -> J {
    J::Arr(b.iter().map(|b| J::Int(claim(b))).collect())
}
/// The value of the combination of a Boolean under the recorded assignment:
/// 0, 1, -1 (unknown) or 9 (anything else).
pub fn worth<S: PrimeField>(cs: &Rec<S>, b: &Boolean) -> i64 {
    let one = <Rec<S> as ConstraintSystem<S>>::one();
    match cs.value(&lc_of(&b.lc(one, S::ONE))) {
        None => -1,
        Some(v) if v == S::ZERO => 0,
        Some(v) if v == S::ONE => 1,
        Some(_) => 9,
    }
}
pub fn worths<S: PrimeField>(cs: &Rec<S>, b: &[Boolean]) -> J {
    J::Arr(b.iter().map(|b| J::Int(worth(cs, b))).collect())
}
pub fn lcs<S: PrimeField>(b: &[Boolean]) -> Vec<Lc<S>> {
    let one = <Rec<S> as ConstraintSystem<S>>::one();
    b.iter().map(|b| lc_of(&b.lc(one, S::ONE))).collect()
}
