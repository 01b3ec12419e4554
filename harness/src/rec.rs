//! A constraint system that records what a circuit does, through the public
//! `ConstraintSystem` trait only.
use bellman::{ConstraintSystem, Index, LinearCombination, SynthesisError, Variable};
use ff::PrimeField;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode {
    /// Evaluate every witness closure, as the prover does.
    Witness,
    /// Never evaluate one, as parameter generation does.
    Shape,
    /// Evaluate every witness closure but accept a missing assignment.
    Lenient,
}

/// A linear combination as (is_aux, index, coefficient) terms, in order.
pub type Lc<S> = Vec<(bool, usize, S)>;

#[derive(Clone)]
pub struct Rec<S: PrimeField> {
    pub mode: Mode,
    pub inputs: Vec<Option<S>>,
    pub aux: Vec<Option<S>>,
    pub cons: Vec<(Lc<S>, Lc<S>, Lc<S>)>,
    /// In order of creation: 'i' / 'a' / 'c'.
    pub order: Vec<char>,
    pub depth: usize,
    pub max_depth: usize,
    /// Namespaces were popped more often than pushed.
    pub underflow: bool,
    /// Whether `Probe::missing` never switches back to the strict mode.
    pub lenient: bool,
}

impl<S: PrimeField> crate::gad::Probe for Rec<S> {
    fn ninputs(&self) -> usize {
        self.inputs.len()
    }
    fn missing(&mut self, is: bool) {
        if self.mode != Mode::Shape {
            self.mode = if is || self.lenient {
                Mode::Lenient
            } else {
                Mode::Witness
            };
        }
    }
}

pub fn lc_of<S: PrimeField>(lc: &LinearCombination<S>) -> Lc<S> {
    lc.as_ref()
        .iter()
        .map(|(v, c)| match v.get_unchecked() {
            Index::Input(i) => (false, i, *c),
            Index::Aux(i) => (true, i, *c),
        })
        .collect()
}

impl<S: PrimeField> Rec<S> {
    pub fn new(mode: Mode) -> Self {
        Rec {
            mode,
            inputs: vec![Some(S::ONE)],
            aux: vec![],
            cons: vec![],
            order: vec![],
            depth: 0,
            max_depth: 0,
            underflow: false,
            lenient: false,
        }
    }
    pub fn value(&self, lc: &Lc<S>) -> Option<S> {
        let mut acc = S::ZERO;
        for (aux, i, c) in lc {
            let v = if *aux { self.aux[*i] } else { self.inputs[*i] };
            acc += v? * *c;
        }
        Some(acc)
    }
    /// The index of the first constraint that the recorded assignment breaks.
    pub fn unsatisfied(&self) -> Option<usize> {
        self.cons.iter().position(
            |(a, b, c)| match (self.value(a), self.value(b), self.value(c)) {
                (Some(a), Some(b), Some(c)) => a * b != c,
                _ => true,
            },
        )
    }
    /// The shape (everything but the assignment), for comparing syntheses.
    pub fn same_shape(&self, o: &Self) -> bool {
        self.inputs.len() == o.inputs.len()
            && self.aux.len() == o.aux.len()
            && self.order == o.order
            && self.cons == o.cons
    }
    fn ask<F: FnOnce() -> Result<S, SynthesisError>>(
        &self,
        f: F,
    ) -> Result<Option<S>, SynthesisError> {
        match self.mode {
            Mode::Shape => Ok(None),
            Mode::Witness => f().map(Some),
            Mode::Lenient => match f() {
                Ok(v) => Ok(Some(v)),
                Err(SynthesisError::AssignmentMissing) => Ok(None),
                Err(e) => Err(e),
            },
        }
    }
}

impl<S: PrimeField> ConstraintSystem<S> for Rec<S> {
    type Root = Self;
    fn alloc<F, A, AR>(&mut self, _: A, f: F) -> Result<Variable, SynthesisError>
    where
        F: FnOnce() -> Result<S, SynthesisError>,
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        let v = self.ask(f)?;
        self.aux.push(v);
        self.order.push('a');
        Ok(Variable::new_unchecked(Index::Aux(self.aux.len() - 1)))
    }
    fn alloc_input<F, A, AR>(&mut self, _: A, f: F) -> Result<Variable, SynthesisError>
    where
        F: FnOnce() -> Result<S, SynthesisError>,
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        let v = self.ask(f)?;
        self.inputs.push(v);
        self.order.push('i');
        Ok(Variable::new_unchecked(Index::Input(self.inputs.len() - 1)))
    }
    fn enforce<A, AR, LA, LB, LC>(&mut self, _: A, a: LA, b: LB, c: LC)
    where
        A: FnOnce() -> AR,
        AR: Into<String>,
        LA: FnOnce(LinearCombination<S>) -> LinearCombination<S>,
        LB: FnOnce(LinearCombination<S>) -> LinearCombination<S>,
        LC: FnOnce(LinearCombination<S>) -> LinearCombination<S>,
    {
        let a = lc_of(&a(LinearCombination::zero()));
        let b = lc_of(&b(LinearCombination::zero()));
        let c = lc_of(&c(LinearCombination::zero()));
        self.cons.push((a, b, c));
        self.order.push('c');
    }
    fn push_namespace<NR, N>(&mut self, _: N)
    where
        NR: Into<String>,
        N: FnOnce() -> NR,
    {
        self.depth += 1;
        self.max_depth = self.max_depth.max(self.depth);
    }
    fn pop_namespace(&mut self) {
        if self.depth == 0 {
            self.underflow = true;
        } else {
            self.depth -= 1;
        }
    }
    fn get_root(&mut self) -> &mut Self {
        self
    }
}
