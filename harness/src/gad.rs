//! Gadget programs: sequences of gadget calls (produced by GadgetGen.tla) that are
//! synthesized through the public API. Every result goes into one register file.
use crate::rec::{lc_of, Lc};
use crate::J;
use bellman::gadgets::boolean::*;
use bellman::gadgets::lookup::*;
use bellman::gadgets::multieq::MultiEq;
use bellman::gadgets::multipack::pack_into_inputs;
use bellman::gadgets::num::{AllocatedNum, Num};
use bellman::gadgets::uint32::UInt32;
use bellman::*;
use ff::{PrimeField, PrimeFieldBits};

#[derive(Clone)]
pub enum Reg<S: PrimeField> {
    B(Boolean),
    A(AllocatedBit),
    N(AllocatedNum<S>),
    M(
        LinearCombination<S>,
        Option<S>,
        std::rc::Rc<dyn Fn(S) -> LinearCombination<S>>,
    ),
    I(Variable),
}

impl<S: PrimeField> Reg<S> {
    pub fn lc(&self, one: Variable) -> Lc<S> {
        match self {
            Reg::B(b) => lc_of(&b.lc(one, S::ONE)),
            Reg::A(a) => lc_of(&(LinearCombination::zero() + a.get_variable())),
            Reg::N(n) => lc_of(&(LinearCombination::zero() + n.get_variable())),
            Reg::M(l, _, _) => lc_of(l),
            Reg::I(v) => lc_of(&(LinearCombination::zero() + *v)),
        }
    }
    /// The combination with a coefficient, where the type offers one.
    pub fn scaled(&self, one: Variable, c: S) -> Lc<S> {
        match self {
            Reg::B(b) => lc_of(&b.lc(one, c)),
            Reg::M(_, _, f) => lc_of(&f(c)),
            Reg::A(a) => lc_of(&(LinearCombination::zero() + (c, a.get_variable()))),
            Reg::N(n) => lc_of(&(LinearCombination::zero() + (c, n.get_variable()))),
            Reg::I(v) => lc_of(&(LinearCombination::zero() + (c, *v))),
        }
    }
    /// The value the register claims to have (None: unknown; inputs claim nothing).
    pub fn got(&self) -> Option<S> {
        let f = |b: bool| if b { S::ONE } else { S::ZERO };
        match self {
            Reg::B(b) => b.get_value().map(f),
            Reg::A(b) => b.get_value().map(f),
            Reg::N(n) => n.get_value(),
            Reg::M(_, v, _) => *v,
            Reg::I(_) => None,
        }
    }
    pub fn b(&self) -> Boolean {
        match self {
            Reg::B(b) => b.clone(),
            Reg::A(a) => Boolean::from(a.clone()),
            _ => panic!("harness: register is no Boolean"),
        }
    }
    pub fn a(&self) -> AllocatedBit {
        match self {
            Reg::A(a) => a.clone(),
            _ => panic!("harness: register is no AllocatedBit"),
        }
    }
    pub fn n(&self) -> AllocatedNum<S> {
        match self {
            Reg::N(a) => a.clone(),
            _ => panic!("harness: register is no AllocatedNum"),
        }
    }
}

fn num<S: PrimeField>(n: Num<S>) -> Reg<S> {
    let l = n.lc(S::ONE);
    let v = n.get_value();
    Reg::M(l, v, std::rc::Rc::new(move |c| n.lc(c)))
}

/// What the interpreter needs to know from the constraint system beyond the trait.
pub trait Probe {
    /// Number of inputs so far, `ONE` included.
    fn ninputs(&self) -> usize;
    /// Called before an allocation of a free value that may be missing.
    fn missing(&mut self, is: bool);
}

pub struct Run<S: PrimeField> {
    pub regs: Vec<Reg<S>>,
    /// First register of each instruction.
    pub off: Vec<usize>,
    pub err: Option<(usize, SynthesisError)>,
}

pub fn nfree(prog: &[J]) -> usize {
    prog.iter().filter(|i| is_free(i)).count()
}
pub fn is_free(i: &J) -> bool {
    matches!(
        i.arr()[0].str(),
        "bit" | "bitc" | "num" | "fbits" | "fbool" | "ubits"
    )
}

fn f<S: PrimeField>(v: &J) -> S {
    S::from(v.int() as u64)
}

fn word(bits: Vec<Boolean>) -> UInt32 {
    UInt32::from_bits(&bits)
}

/// Executes one instruction. `free` is the value for allocating ones.
pub fn step<S, CS>(
    cs: &mut CS,
    k: usize,
    ins: &J,
    regs: &[Reg<S>],
    free: Option<u64>,
) -> Result<Vec<Reg<S>>, SynthesisError>
where
    S: PrimeFieldBits,
    CS: ConstraintSystem<S> + Probe,
{
    let i = ins.arr();
    let r = |j: usize| &regs[i[j].us() - 1];
    let ns = || format!("i{}", k);
    let one = CS::one();
    Ok(match i[0].str() {
        "bit" => vec![Reg::A(AllocatedBit::alloc(
            cs.namespace(ns),
            free.map(|v| v == 1),
        )?)],
        "bitc" => vec![Reg::A(AllocatedBit::alloc_conditionally(
            cs.namespace(ns),
            free.map(|v| v == 1),
            &r(1).a(),
        )?)],
        "num" => vec![Reg::N(AllocatedNum::alloc(cs.namespace(ns), || {
            free.map(S::from).ok_or(SynthesisError::AssignmentMissing)
        })?)],
        "fbits" => field_into_allocated_bits_le::<S, _, S>(cs.namespace(ns), free.map(S::from))?
            .into_iter()
            .map(Reg::A)
            .collect(),
        "fbool" => field_into_boolean_vec_le::<S, _, S>(cs.namespace(ns), free.map(S::from))?
            .into_iter()
            .map(Reg::B)
            .collect(),
        "ubits" => u64_into_boolean_vec_le(cs.namespace(ns), free)?
            .into_iter()
            .map(Reg::B)
            .collect(),
        "axor" => vec![Reg::A(AllocatedBit::xor(
            cs.namespace(ns),
            &r(1).a(),
            &r(2).a(),
        )?)],
        "aand" => vec![Reg::A(AllocatedBit::and(
            cs.namespace(ns),
            &r(1).a(),
            &r(2).a(),
        )?)],
        "aandnot" => vec![Reg::A(AllocatedBit::and_not(
            cs.namespace(ns),
            &r(1).a(),
            &r(2).a(),
        )?)],
        "anor" => vec![Reg::A(AllocatedBit::nor(
            cs.namespace(ns),
            &r(1).a(),
            &r(2).a(),
        )?)],
        "const" => vec![Reg::B(Boolean::constant(i[1].int() == 1))],
        "not" => vec![Reg::B(r(1).b().not())],
        "xor" => vec![Reg::B(Boolean::xor(
            cs.namespace(ns),
            &r(1).b(),
            &r(2).b(),
        )?)],
        "and" => vec![Reg::B(Boolean::and(
            cs.namespace(ns),
            &r(1).b(),
            &r(2).b(),
        )?)],
        "eq" => {
            Boolean::enforce_equal(cs.namespace(ns), &r(1).b(), &r(2).b())?;
            vec![]
        }
        "ch" => vec![Reg::B(Boolean::sha256_ch(
            cs.namespace(ns),
            &r(1).b(),
            &r(2).b(),
            &r(3).b(),
        )?)],
        "maj" => vec![Reg::B(Boolean::sha256_maj(
            cs.namespace(ns),
            &r(1).b(),
            &r(2).b(),
            &r(3).b(),
        )?)],
        "mul" => vec![Reg::N(r(1).n().mul(cs.namespace(ns), &r(2).n())?)],
        "sq" => vec![Reg::N(r(1).n().square(cs.namespace(ns))?)],
        "nz" => {
            r(1).n().assert_nonzero(cs.namespace(ns))?;
            vec![]
        }
        "rev" => {
            let (a, b) = AllocatedNum::conditionally_reverse(
                cs.namespace(ns),
                &r(1).n(),
                &r(2).n(),
                &r(3).b(),
            )?;
            vec![Reg::N(a), Reg::N(b)]
        }
        "inp" | "pack" => {
            let before = cs.ninputs();
            if i[0].str() == "inp" {
                r(1).n().inputize(cs.namespace(ns))?;
            } else {
                let bits: Vec<Boolean> = (1..i.len()).map(|j| r(j).b()).collect();
                pack_into_inputs(cs.namespace(ns), &bits)?;
            }
            (before..cs.ninputs())
                .map(|j| Reg::I(Variable::new_unchecked(Index::Input(j))))
                .collect()
        }
        "bits" => r(1)
            .n()
            .to_bits_le(cs.namespace(ns))?
            .into_iter()
            .map(Reg::B)
            .collect(),
        "sbits" => r(1)
            .n()
            .to_bits_le_strict(cs.namespace(ns))?
            .into_iter()
            .map(Reg::B)
            .collect(),
        // A lazy combination: a number or nothing, then Booleans with coefficients.
        "lin" => {
            let mut n = if i[1].int() == 0 {
                Num::zero()
            } else {
                Num::from(r(1).n())
            };
            for x in &i[2..] {
                let x = x.arr();
                n = n.add_bool_with_coeff(one, &regs[x[0].us() - 1].b(), f(&x[1]));
            }
            vec![num(n)]
        }
        "look" => {
            let bits: Vec<Boolean> = (1..4).map(|j| r(j).b()).collect();
            let t: Vec<(S, S)> = i[4]
                .arr()
                .iter()
                .map(|c| (f(&c.arr()[0]), f(&c.arr()[1])))
                .collect();
            let (x, y) = lookup3_xy(cs.namespace(ns), &bits, &t)?;
            vec![Reg::N(x), Reg::N(y)]
        }
        "slook" => {
            let bits: Vec<Boolean> = (1..4).map(|j| r(j).b()).collect();
            let t: Vec<(S, S)> = i[4]
                .arr()
                .iter()
                .map(|c| (f(&c.arr()[0]), f(&c.arr()[1])))
                .collect();
            let (x, y) = lookup3_xy_with_conditional_negation(cs.namespace(ns), &bits, &t)?;
            vec![num(x), num(y)]
        }
        // Several equalities through one accumulator: [width, [[bit, shift]..], [[bit, shift]..]].
        "meq" => {
            let side = |s: &J| {
                let mut l = LinearCombination::zero();
                for x in s.arr() {
                    let x = x.arr();
                    l = l + &regs[x[0].us() - 1].b().lc(one, S::from(1u64 << x[1].us()));
                }
                l
            };
            let mut m = MultiEq::new(cs.namespace(ns));
            for (j, e) in i[1..].iter().enumerate() {
                let e = e.arr();
                if j % 2 == 0 {
                    m.enforce_equal(e[0].us(), &side(&e[1]), &side(&e[2]));
                } else {
                    let mut n = m.namespace(|| format!("e{}", j));
                    n.get_root()
                        .enforce_equal(e[0].us(), &side(&e[1]), &side(&e[2]));
                }
            }
            drop(m);
            vec![]
        }
        // Word operations on 32 bits each (least significant first).
        "wrot" | "wshr" => {
            let w = word(i[1].arr().iter().map(|x| regs[x.us() - 1].b()).collect());
            let w = if i[0].str() == "wrot" {
                w.rotr(i[2].us())
            } else {
                w.shr(i[2].us())
            };
            w.into_bits().into_iter().map(Reg::B).collect()
        }
        x => panic!("harness: instruction {}", x),
    })
}

pub fn run<S, CS>(cs: &mut CS, prog: &[J], free: &[Option<u64>]) -> Run<S>
where
    S: PrimeFieldBits,
    CS: ConstraintSystem<S> + Probe,
{
    let mut regs = vec![];
    let mut off = vec![];
    let mut next = 0;
    for (k, ins) in prog.iter().enumerate() {
        let mut v = None;
        if is_free(ins) {
            v = free[next];
            next += 1;
            cs.missing(v.is_none());
        } else {
            cs.missing(false);
        }
        match step(cs, k, ins, &regs, v) {
            Ok(r) => {
                off.push(regs.len());
                regs.extend(r);
            }
            Err(e) => {
                return Run {
                    regs,
                    off,
                    err: Some((k, e)),
                }
            }
        }
    }
    Run {
        regs,
        off,
        err: None,
    }
}
