//! Circuit programs: sequences of operations produced by the specification
//! (CircuitGen.tla) or at random, synthesized through the public API.
use crate::rng::Rng;
use crate::{obj, J};
use bellman::*;
use ff::PrimeField;

pub type Terms = Vec<(bool, usize, u64)>;
#[derive(Clone, Debug)]
pub enum Op {
    Inp(u64),
    Aux(u64),
    Enf(Terms, Terms, Terms),
    Ns,
    End,
}

#[derive(Clone, Debug)]
pub struct Prog {
    pub ops: Vec<Op>,
}

fn terms(j: &J) -> Terms {
    j.arr()
        .iter()
        .map(|t| {
            let t = t.arr();
            (t[0].int() == 1, t[1].us(), t[2].int() as u64)
        })
        .collect()
}
fn jterms(t: &Terms) -> J {
    J::Arr(
        t.iter()
            .map(|(a, i, c)| J::Arr(vec![J::Int(*a as i64), J::from(*i), J::from(*c)]))
            .collect(),
    )
}

impl Prog {
    pub fn parse(j: &J) -> Prog {
        Prog {
            ops: j
                .arr()
                .iter()
                .map(|o| {
                    let o = o.arr();
                    match o[0].str() {
                        "inp" => Op::Inp(o[1].int() as u64),
                        "aux" => Op::Aux(o[1].int() as u64),
                        "enf" => Op::Enf(terms(&o[1]), terms(&o[2]), terms(&o[3])),
                        "ns" => Op::Ns,
                        "end" => Op::End,
                        x => panic!("harness: op {}", x),
                    }
                })
                .collect(),
        }
    }
    pub fn json(&self) -> J {
        J::Arr(
            self.ops
                .iter()
                .map(|o| match o {
                    Op::Inp(v) => J::Arr(vec!["inp".into(), (*v).into()]),
                    Op::Aux(v) => J::Arr(vec!["aux".into(), (*v).into()]),
                    Op::Enf(a, b, c) => J::Arr(vec!["enf".into(), jterms(a), jterms(b), jterms(c)]),
                    Op::Ns => J::Arr(vec!["ns".into()]),
                    Op::End => J::Arr(vec!["end".into()]),
                })
                .collect(),
        )
    }
    pub fn inputs(&self) -> Vec<u64> {
        let mut v = vec![1];
        v.extend(self.ops.iter().filter_map(|o| match o {
            Op::Inp(v) => Some(*v),
            _ => None,
        }));
        v
    }
    pub fn aux(&self) -> Vec<u64> {
        self.ops
            .iter()
            .filter_map(|o| match o {
                Op::Aux(v) => Some(*v),
                _ => None,
            })
            .collect()
    }
    /// The same circuit with another assignment.
    pub fn with(&self, inp: &[u64], aux: &[u64]) -> Prog {
        let (mut i, mut a) = (1, 0);
        Prog {
            ops: self
                .ops
                .iter()
                .map(|o| match o {
                    Op::Inp(_) => {
                        i += 1;
                        Op::Inp(inp[i - 1])
                    }
                    Op::Aux(_) => {
                        a += 1;
                        Op::Aux(aux[a - 1])
                    }
                    o => o.clone(),
                })
                .collect(),
        }
    }

    /// A random satisfied program over F_p with the given dimensions.
    pub fn random(rng: &mut Rng, p: u64, ninp: usize, naux: usize, ncons: usize) -> Prog {
        let mut ops = vec![];
        let val = |rng: &mut Rng| match rng.below(6) {
            0 => 0,
            1 => 1,
            2 => p - 1,
            _ => rng.below(p),
        };
        let mut vars: Vec<(bool, usize, u64)> = vec![(false, 0, 1)];
        let mut kinds: Vec<bool> = (0..ninp)
            .map(|_| false)
            .chain((0..naux).map(|_| true))
            .collect();
        for i in (1..kinds.len()).rev() {
            let j = rng.below(i as u64 + 1) as usize;
            kinds.swap(i, j);
        }
        let (mut ni, mut na) = (1, 0);
        let mut made = 0;
        let total = kinds.len();
        let mut depth = 0;
        for (n, k) in kinds.into_iter().enumerate() {
            let v = val(rng);
            if k {
                ops.push(Op::Aux(v));
                vars.push((true, na, v));
                na += 1;
            } else {
                ops.push(Op::Inp(v));
                vars.push((false, ni, v));
                ni += 1;
            }
            if rng.below(7) == 0 && depth < 4 {
                ops.push(Op::Ns);
                depth += 1;
            } else if rng.below(7) == 0 && depth > 0 {
                ops.push(Op::End);
                depth -= 1;
            }
            // Spread the constraints over the allocations; mention the newest variable.
            while made * total < ncons * (n + 1) && made < ncons {
                let lc = |rng: &mut Rng, must: Option<(bool, usize, u64)>| {
                    let mut t: Terms = vec![];
                    if let Some(v) = must {
                        t.push((v.0, v.1, 1 + rng.below(3)));
                    }
                    for _ in 0..rng.below(4) {
                        let v = *rng.pick(&vars);
                        let c = match rng.below(6) {
                            0 => 0,
                            1 => p - 1,
                            2 => rng.below(p),
                            _ => 1,
                        };
                        t.push((v.0, v.1, c));
                        if rng.below(5) == 0 {
                            // A second term for the same variable that may cancel it.
                            t.push((v.0, v.1, if rng.coin() { (p - c) % p } else { 1 }));
                        }
                    }
                    t
                };
                let ev = |t: &Terms| {
                    t.iter().fold(0u64, |acc, (a, i, c)| {
                        let v = vars.iter().find(|v| v.0 == *a && v.1 == *i).unwrap().2;
                        (acc + v * c) % p
                    })
                };
                let newest = vars.last().copied().filter(|_| rng.below(4) > 0);
                let (ma, mb) = match rng.below(3) {
                    0 => (newest, None),
                    1 => (None, newest),
                    _ => (None, None),
                };
                let a = lc(rng, ma);
                let b = lc(rng, mb);
                let want = ev(&a) * ev(&b) % p;
                let mut c = lc(rng, newest);
                let have = ev(&c);
                c.push((false, 0, (want + p - have) % p));
                ops.push(Op::Enf(a, b, c));
                made += 1;
            }
        }
        while made < ncons {
            ops.push(Op::Enf(
                vec![(false, 0, 2)],
                vec![(false, 0, 3)],
                vec![(false, 0, 6)],
            ));
            made += 1;
        }
        for _ in 0..depth {
            ops.push(Op::End);
        }
        // Every auxiliary variable occurs in some constraint.
        for v in vars.iter().filter(|v| v.0) {
            let seen = ops.iter().any(|o| match o {
                Op::Enf(a, b, c) => [a, b, c].iter().any(|l| {
                    l.iter()
                        .filter(|t| t.0 && t.1 == v.1)
                        .fold(0, |s, t| (s + t.2) % p)
                        != 0
                }),
                _ => false,
            });
            if !seen {
                ops.push(Op::Enf(
                    vec![(true, v.1, 1)],
                    vec![(false, 0, 1)],
                    vec![(false, 0, v.2)],
                ));
            }
        }
        Prog { ops }
    }
    pub fn summary(&self) -> J {
        obj! {"inputs" => self.inputs().len(), "aux" => self.aux().len(), "ops" => self.ops.len()}
    }
}

/// What the generator or prover synthesizes.
pub struct Run {
    pub prog: Prog,
    /// Without witness, every closure reports AssignmentMissing.
    pub witness: bool,
    /// Fails with this error after that many operations.
    pub fail: Option<(usize, SynthesisError)>,
}
impl Run {
    pub fn shape(p: &Prog) -> Run {
        Run {
            prog: p.clone(),
            witness: false,
            fail: None,
        }
    }
    pub fn honest(p: &Prog) -> Run {
        Run {
            prog: p.clone(),
            witness: true,
            fail: None,
        }
    }
}

fn lc<S: PrimeField>(
    l: LinearCombination<S>,
    t: &Terms,
    inp: &[Variable],
    aux: &[Variable],
) -> LinearCombination<S> {
    t.iter().fold(l, |l, (a, i, c)| {
        let v = if *a { aux[*i] } else { inp[*i] };
        l + (S::from(*c), v)
    })
}

fn walk<S: PrimeField, CS: ConstraintSystem<S>>(
    cs: &mut CS,
    run: &mut Run,
    pos: &mut usize,
    inp: &mut Vec<Variable>,
    aux: &mut Vec<Variable>,
) -> Result<(), SynthesisError> {
    while *pos < run.prog.ops.len() {
        if let Some((n, _)) = run.fail {
            if n == *pos {
                return Err(run.fail.take().unwrap().1);
            }
        }
        let op = run.prog.ops[*pos].clone();
        *pos += 1;
        let w = run.witness;
        let val = move |v: u64| {
            if w {
                Ok(S::from(v))
            } else {
                Err(SynthesisError::AssignmentMissing)
            }
        };
        match op {
            Op::Inp(v) => inp.push(cs.alloc_input(|| "i", || val(v))?),
            Op::Aux(v) => aux.push(cs.alloc(|| "a", || val(v))?),
            Op::Enf(a, b, c) => cs.enforce(
                || "c",
                |l| lc(l, &a, inp, aux),
                |l| lc(l, &b, inp, aux),
                |l| lc(l, &c, inp, aux),
            ),
            Op::Ns => {
                let mut ns = cs.namespace(|| "ns");
                walk::<S, Namespace<S, CS::Root>>(&mut ns, run, pos, inp, aux)?;
            }
            Op::End => return Ok(()),
        }
    }
    Ok(())
}

impl<S: PrimeField> Circuit<S> for Run {
    fn synthesize<CS: ConstraintSystem<S>>(mut self, cs: &mut CS) -> Result<(), SynthesisError> {
        let mut inp = vec![CS::one()];
        let mut aux = vec![];
        let mut pos = 0;
        walk(cs, &mut self, &mut pos, &mut inp, &mut aux)?;
        if let Some((_, e)) = self.fail {
            return Err(e);
        }
        Ok(())
    }
}
