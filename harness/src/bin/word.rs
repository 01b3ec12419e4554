//! Programs over 32-bit words (from WordGen.tla) on the real gadgets, recorded for
//! WordTrace.tla and CertTrace.tla.
use bellman::gadgets::boolean::*;
use bellman::gadgets::multieq::MultiEq;
use bellman::gadgets::uint32::UInt32;
use bellman::*;
use bls12_381::Scalar;
use conf::cert::*;
use conf::gad::Probe;
use conf::obs::*;
use conf::rec::*;
use conf::rng::Rng;
use conf::tcs::Tcs;
use conf::toy::*;
use conf::util::*;
use conf::{json, obj, J};
use ff::PrimeField;
use std::collections::BTreeSet;

fn frees(prog: &[J]) -> usize {
    prog.iter()
        .filter(|i| matches!(i.arr()[0].str(), "walloc" | "wmix"))
        .count()
}
fn to_u32(bits: &J) -> u32 {
    bits.arr()
        .iter()
        .enumerate()
        .map(|(i, b)| (b.int() as u32) << i)
        .sum()
}

struct Res {
    regs: Vec<UInt32>,
    /// Variables of freely chosen bits.
    free: Vec<Variable>,
    err: Option<(usize, SynthesisError)>,
}

fn step<S, CS, M>(
    cs: &mut M,
    k: usize,
    i: &[J],
    regs: &[UInt32],
    free: Option<u32>,
    fv: &mut Vec<Variable>,
) -> Result<UInt32, SynthesisError>
where
    S: PrimeField,
    CS: ConstraintSystem<S>,
    M: ConstraintSystem<S, Root = MultiEq<S, CS>>,
{
    let r = |j: usize| &regs[i[j].us() - 1];
    let ns = || format!("i{}", k);
    Ok(match i[0].str() {
        "walloc" => {
            let w = UInt32::alloc(cs.namespace(ns), free)?;
            for b in w.clone().into_bits() {
                if let Boolean::Is(a) = b {
                    fv.push(a.get_variable());
                }
            }
            w
        }
        "wconst" => UInt32::constant(to_u32(&i[1])),
        "wmix" => {
            let first = if regs.is_empty() {
                vec![]
            } else {
                regs[0].clone().into_bits()
            };
            let mut bits = vec![];
            for (j, kd) in i[2].arr().iter().enumerate() {
                bits.push(match kd.int() {
                    0 => Boolean::constant(false),
                    1 => Boolean::constant(true),
                    n @ (2 | 3) => {
                        let a = AllocatedBit::alloc(
                            cs.namespace(|| format!("i{} {}", k, j)),
                            free.map(|f| f >> j & 1 == 1),
                        )?;
                        fv.push(a.get_variable());
                        let b = Boolean::from(a);
                        if n == 3 {
                            b.not()
                        } else {
                            b
                        }
                    }
                    4 => first[j].clone(),
                    _ => first[j].not(),
                });
            }
            if i[1].str() == "be" {
                UInt32::from_bits_be(&bits)
            } else {
                UInt32::from_bits(&bits)
            }
        }
        "wrot" => r(1).rotr(i[2].us()),
        "wshr" => r(1).shr(i[2].us()),
        "wxor" => r(1).xor(cs.namespace(ns), r(2))?,
        "wch" => UInt32::sha256_ch(cs.namespace(ns), r(1), r(2), r(3))?,
        "wmaj" => UInt32::sha256_maj(cs.namespace(ns), r(1), r(2), r(3))?,
        "wadd" => {
            let ops: Vec<UInt32> = (1..i.len()).map(|j| r(j).clone()).collect();
            UInt32::addmany(cs.namespace(ns), &ops)?
        }
        "wrev" => {
            let w = r(1).clone();
            match i[2].int() {
                0 => UInt32::from_bits(&w.into_bits()),
                1 => UInt32::from_bits_be(&w.into_bits_be()),
                2 => UInt32::from_bits(&w.into_bits_be()),
                _ => UInt32::from_bits_be(&w.into_bits()),
            }
        }
        x => panic!("harness: instruction {}", x),
    })
}

fn run<S, CS>(cs: &mut CS, prog: &[J], free: &[Option<u32>]) -> Res
where
    S: PrimeField,
    CS: ConstraintSystem<S> + Probe,
{
    let mut regs = vec![];
    let mut fv = vec![];
    let mut err = None;
    let mut next = 0;
    let mut m = MultiEq::new(Pass(cs, std::marker::PhantomData));
    for (k, ins) in prog.iter().enumerate() {
        let i = ins.arr();
        let mut v = None;
        let mut miss = false;
        if matches!(i[0].str(), "walloc" | "wmix") {
            v = free[next];
            next += 1;
            miss = v.is_none();
        }
        m.get_root().missing(miss);
        match step::<S, _, _>(&mut m, k, i, &regs, v, &mut fv) {
            Ok(w) => regs.push(w),
            Err(e) => {
                err = Some((k, e));
                break;
            }
        }
    }
    drop(m);
    Res {
        regs,
        free: fv,
        err,
    }
}

/// Lets the probe be reached through a MultiEq: the allocation of a variable named
/// "probe" is not possible, so the mode is kept in a thread-local.
struct Pass<'a, S: PrimeField, CS: ConstraintSystem<S> + Probe>(
    &'a mut CS,
    std::marker::PhantomData<S>,
);
thread_local! {
    static MISS: std::cell::Cell<bool> = std::cell::Cell::new(false);
}
trait Missing {
    fn missing(&mut self, is: bool);
}
impl<S: PrimeField, CS: ConstraintSystem<S>> Missing for MultiEq<S, CS> {
    fn missing(&mut self, is: bool) {
        MISS.with(|m| m.set(is));
    }
}
impl<'a, S: PrimeField, C: ConstraintSystem<S> + Probe> ConstraintSystem<S> for Pass<'a, S, C> {
    type Root = Self;
    fn alloc<F, A, AR>(&mut self, a: A, f: F) -> Result<Variable, SynthesisError>
    where
        F: FnOnce() -> Result<S, SynthesisError>,
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        self.0.missing(MISS.with(|m| m.get()));
        self.0.alloc(a, f)
    }
    fn alloc_input<F, A, AR>(&mut self, a: A, f: F) -> Result<Variable, SynthesisError>
    where
        F: FnOnce() -> Result<S, SynthesisError>,
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        self.0.missing(MISS.with(|m| m.get()));
        self.0.alloc_input(a, f)
    }
    fn enforce<A, AR, LA, LB, LC>(&mut self, an: A, a: LA, b: LB, c: LC)
    where
        A: FnOnce() -> AR,
        AR: Into<String>,
        LA: FnOnce(LinearCombination<S>) -> LinearCombination<S>,
        LB: FnOnce(LinearCombination<S>) -> LinearCombination<S>,
        LC: FnOnce(LinearCombination<S>) -> LinearCombination<S>,
    {
        self.0.enforce(an, a, b, c)
    }
    fn push_namespace<NR, N>(&mut self, n: N)
    where
        NR: Into<String>,
        N: FnOnce() -> NR,
    {
        self.0.get_root().push_namespace(n)
    }
    fn pop_namespace(&mut self) {
        self.0.get_root().pop_namespace()
    }
    fn get_root(&mut self) -> &mut Self {
        self
    }
}

fn bits32(x: u32) -> J {
    J::Arr((0..32).map(|i| J::from((x >> i & 1) as usize)).collect())
}

fn case<S: PrimeField>(field: &str, prog: &[J], rng: &mut Rng, nruns: usize, certs: &mut Out) -> J {
    let nf = frees(prog);
    let none = vec![None; nf];
    let mut o = obj! {"field"=>field, "prog"=>J::Arr(prog.to_vec())};
    let shape = guard(|| {
        let mut cs = Rec::<S>::new(Mode::Shape);
        let r = run::<S, _>(&mut cs, prog, &none);
        (cs, r)
    });
    let (cs0, r0) = match shape {
        Ok(x) => x,
        Err(_) => {
            o.push("panic", 1usize);
            o.push("err", "");
            o.push("ns", true);
            o.push("ncons", 0usize);
            o.push("runs", J::Arr(vec![]));
            return o;
        }
    };
    o.push("panic", 0usize);
    o.push("err", r0.err.as_ref().map(|e| err_name(&e.1)).unwrap_or(""));
    o.push("ns", !cs0.underflow && cs0.depth == 0);
    o.push("ncons", cs0.cons.len());
    if r0.err.is_none() {
        let nm = Names::new(&cs0);
        let free: BTreeSet<usize> = r0
            .free
            .iter()
            .map(|v| match v.get_unchecked() {
                Index::Aux(i) => nm.aux[i],
                Index::Input(i) => nm.inp[i],
            })
            .collect();
        let outs: Vec<Lc<S>> = r0
            .regs
            .iter()
            .flat_map(|w| lcs::<S>(&w.clone().into_bits()))
            .collect();
        let mut c = certificate(&cs0, &free, &outs);
        c.push("prog", J::Arr(prog.to_vec()));
        c.push("field", field);
        certs.put(&c);
    }
    let special = [0u32, u32::MAX, 1, 1 << 31, 0xffff, 0x8000_0001];
    let mut runs: Vec<(Vec<Option<u32>>, bool)> = vec![];
    for q in 0..nruns {
        let c = (0..nf)
            .map(|_| {
                Some(match q {
                    0 => 0,
                    1 => u32::MAX,
                    _ if rng.below(3) == 0 => *rng.pick(&special),
                    _ => rng.next() as u32,
                })
            })
            .collect();
        runs.push((c, false));
    }
    for m in 0..=nf {
        for len in [false, true] {
            if nf == 0 {
                continue;
            }
            let mut c: Vec<Option<u32>> = (0..nf).map(|_| Some(rng.next() as u32)).collect();
            if m == nf {
                c = none.clone()
            } else {
                c[m] = None
            }
            runs.push((c, len));
        }
    }
    let mut js = vec![];
    for (c, len) in runs {
        let full = c.iter().all(|x| x.is_some());
        let fj = J::Arr(
            c.iter()
                .map(|x| x.map(bits32).unwrap_or(J::Arr(vec![])))
                .collect(),
        );
        let r = guard(|| {
            let mut cs = Rec::<S>::new(Mode::Witness);
            cs.lenient = len;
            let r = run::<S, _>(&mut cs, prog, &c);
            (cs, r)
        });
        let mut j = obj! {"free"=>fj, "full"=>full, "len"=>len};
        match r {
            Err(_) => {
                j.push("err", "panic");
                j.push("ek", 0usize);
                j.push("same", false);
                j.push("sat", 0usize);
                j.push("got", J::Arr(vec![]));
                j.push("be", J::Arr(vec![]));
                j.push("worth", J::Arr(vec![]));
                j.push("tn", 0usize);
            }
            Ok((cs, r)) => {
                j.push("err", r.err.as_ref().map(|e| err_name(&e.1)).unwrap_or(""));
                j.push("ek", r.err.as_ref().map(|e| e.0 + 1).unwrap_or(0));
                j.push("same", r.err.is_some() || cs.same_shape(&cs0));
                let mut tn = cs0.cons.len();
                let mut sat = full && r.err.is_none() && cs.unsatisfied().is_none();
                if full && r.err.is_none() {
                    let mut t = Tcs::<S>::new();
                    let e = run::<S, _>(&mut t, prog, &c).err.is_some();
                    tn = t.0.num_constraints();
                    sat = sat && !e && t.0.is_satisfied();
                }
                j.push("sat", sat as usize);
                j.push("tn", tn);
                j.push(
                    "got",
                    J::Arr(
                        r.regs
                            .iter()
                            .map(|w| claims(&w.clone().into_bits()))
                            .collect(),
                    ),
                );
                j.push(
                    "be",
                    J::Arr(
                        r.regs
                            .iter()
                            .map(|w| claims(&w.clone().into_bits_be()))
                            .collect(),
                    ),
                );
                j.push(
                    "worth",
                    J::Arr(
                        r.regs
                            .iter()
                            .map(|w| worths(&cs, &w.clone().into_bits()))
                            .collect(),
                    ),
                );
            }
        }
        js.push(j);
    }
    o.push("runs", J::Arr(js));
    o
}

/// word run OUT PROGRAMS CERTS FIELDS RUNS PART OF
fn main() {
    quiet_panics();
    let mut out = Out::new(&arg(2));
    let progs = json::read_lines(&arg(3));
    let mut certs = Out::new(&arg(4));
    let fields = arg(5);
    let nruns: usize = arg(6).parse().unwrap();
    let part: usize = arg(7).parse().unwrap();
    let of: usize = arg(8).parse().unwrap();
    for (i, pr) in progs.iter().enumerate() {
        if i % of != part {
            continue;
        }
        for f in fields.split(',') {
            let mut rng = Rng::new(seed() ^ ((i as u64) << 8) ^ (f.len() as u64));
            let j = match f {
                "gold" => {
                    case::<Fp<18446744069414584321>>(f, pr.arr(), &mut rng, nruns, &mut certs)
                }
                "bls" => case::<Scalar>(f, pr.arr(), &mut rng, nruns, &mut certs),
                _ => panic!("harness: field"),
            };
            out.put(&j);
        }
    }
}
