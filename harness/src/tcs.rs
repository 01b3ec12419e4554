//! The public test constraint system as a system that gadget programs can run on.
use crate::gad::Probe;
use bellman::gadgets::test::TestConstraintSystem;
use bellman::*;
use ff::PrimeField;

/// The public test system does not probe.
pub struct Tcs<S: PrimeField>(pub TestConstraintSystem<S>);
impl<S: PrimeField> Tcs<S> {
    pub fn new() -> Self {
        Tcs(TestConstraintSystem::new())
    }
}
impl<S: PrimeField> Probe for Tcs<S> {
    fn ninputs(&self) -> usize {
        0
    }
    fn missing(&mut self, _: bool) {}
}
impl<S: PrimeField> ConstraintSystem<S> for Tcs<S> {
    type Root = Self;
    fn alloc<F, A, AR>(&mut self, a: A, f: F) -> Result<Variable, SynthesisError>
    where
        F: FnOnce() -> Result<S, SynthesisError>,
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        self.0.alloc(a, f)
    }
    fn alloc_input<F, A, AR>(&mut self, a: A, f: F) -> Result<Variable, SynthesisError>
    where
        F: FnOnce() -> Result<S, SynthesisError>,
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        self.0.alloc_input(a, f)
    }
    fn enforce<A, AR, LA, LB, LC>(&mut self, an: A, a: LA, b: LB, c: LC)
    where
        A: FnOnce() -> AR,
        AR: Into<String>,
        LA: FnOnce(LinearCombination<S>) -> LinearCombination<S>,
        LB: FnOnce(LinearCombination<S>) -> LinearCombination<S>,
        LC: FnOnce(LinearCombination<S>) -> LinearCombination<S>,
    {
        self.0.enforce(an, a, b, c)
    }
    fn push_namespace<NR, N>(&mut self, n: N)
    where
        NR: Into<String>,
        N: FnOnce() -> NR,
    {
        self.0.push_namespace(n)
    }
    fn pop_namespace(&mut self) {
        self.0.pop_namespace()
    }
    fn get_root(&mut self) -> &mut Self {
        self
    }
}
