//! Histories of operations on linear combinations (from LinGen.tla), recorded for LinTrace.tla.
use bellman::gadgets::test::TestConstraintSystem;
use bellman::*;
use bls12_381::Scalar;
use conf::rec::*;
use conf::rng::Rng;
use conf::toy::*;
use conf::util::*;
use conf::{json, obj, J};
use ff::PrimeField;
use groth16::*;

fn fe<S: PrimeField>(c: i64) -> S {
    let a = S::from(c.unsigned_abs());
    if c < 0 {
        -a
    } else {
        a
    }
}
fn var(v: usize) -> Variable {
    Variable::new_unchecked(match v {
        1 => Index::Input(0),
        2 => Index::Input(1),
        v => Index::Aux(v - 3),
    })
}
fn num(v: Variable) -> usize {
    match v.get_unchecked() {
        Index::Input(i) if i < 2 => 1 + i,
        Index::Aux(i) if i < 2 => 3 + i,
        _ => 99,
    }
}
/// The number that TLC sees: a residue of a small field, a small signed integer of a large one.
fn show<S: PrimeField>(q: i64, c: &S) -> i64 {
    let le = |c: &S| {
        let r = c.to_repr();
        let b = r.as_ref();
        if b[4..].iter().any(|x| *x != 0) || b[3] >= 0x40 {
            None
        } else {
            Some(b[0] as i64 | (b[1] as i64) << 8 | (b[2] as i64) << 16 | (b[3] as i64) << 24)
        }
    };
    if q != 0 {
        return le(c).unwrap();
    }
    le(c)
        .or_else(|| le(&-*c).map(|x| -x))
        .unwrap_or(1_000_000_007)
}

fn history<S: PrimeField>(ops: &[J]) -> Vec<LinearCombination<S>> {
    let mut regs: Vec<LinearCombination<S>> = vec![];
    for o in ops {
        let i = o.arr();
        let r = |k: usize| &regs[i[k].us() - 1];
        let n = match i[0].str() {
            "zero" => LinearCombination::zero(),
            "addv" => r(1).clone() + var(i[2].us()),
            "subv" => r(1).clone() - var(i[2].us()),
            "addc" => r(1).clone() + (fe::<S>(i[2].int()), var(i[3].us())),
            "subc" => r(1).clone() - (fe::<S>(i[2].int()), var(i[3].us())),
            "addl" => r(1).clone() + r(2),
            "subl" => r(1).clone() - r(2),
            "addcl" => r(1).clone() + (fe::<S>(i[2].int()), r(3)),
            "subcl" => r(1).clone() - (fe::<S>(i[2].int()), r(3)),
            x => panic!("harness: op {}", x),
        };
        regs.push(n);
    }
    regs
}
/// The formal sum, one term per variable.
fn sums<S: PrimeField>(l: &LinearCombination<S>) -> [S; 4] {
    let mut s = [S::ZERO; 4];
    for (v, c) in l.as_ref() {
        s[num(*v) - 1] += c;
    }
    s
}
fn written<S: PrimeField>(s: &[S; 4]) -> LinearCombination<S> {
    let mut l = LinearCombination::zero();
    for v in (0..4).rev() {
        if !s[v].is_zero_vartime() {
            l = l + (s[v], var(v + 1));
        }
    }
    l
}
fn value<S: PrimeField>(s: &[S; 4], w: &[S; 4]) -> S {
    (0..4).map(|i| s[i] * w[i]).fold(S::ZERO, |a, b| a + b)
}

fn vars<S: PrimeField, CS: ConstraintSystem<S>>(cs: &mut CS, w: &[S; 4]) {
    cs.alloc_input(|| "x", || Ok(w[1])).unwrap();
    cs.alloc(|| "y", || Ok(w[2])).unwrap();
    cs.alloc(|| "z", || Ok(w[3])).unwrap();
}
fn tcs<S: PrimeField>(
    w: &[S; 4],
    a: &LinearCombination<S>,
    b: &LinearCombination<S>,
    c: &LinearCombination<S>,
) -> TestConstraintSystem<S> {
    let mut cs = TestConstraintSystem::new();
    vars(&mut cs, w);
    // The combination is built on the one that the system hands out.
    cs.enforce(|| "e", |l| l + a, |_| b.clone(), |l| l + (S::ONE, c));
    cs
}

struct Case<S: PrimeField> {
    /// a, b, c and which of them are used as written out.
    lc: [LinearCombination<S>; 3],
    w: [S; 4],
    tie: bool,
    known: bool,
}
impl<S: PrimeField> Circuit<S> for Case<S> {
    fn synthesize<CS: ConstraintSystem<S>>(self, cs: &mut CS) -> Result<(), SynthesisError> {
        let give = |v: S| {
            if self.known {
                Ok(v)
            } else {
                Err(SynthesisError::AssignmentMissing)
            }
        };
        let w = self.w;
        cs.alloc_input(|| "x", || give(w[1]))?;
        let y = cs.alloc(|| "y", || give(w[2]))?;
        let z = cs.alloc(|| "z", || give(w[3]))?;
        let s: Vec<S> = self.lc.iter().map(|l| value(&sums(l), &w)).collect();
        let o = [
            cs.alloc(|| "oa", || give(s[0]))?,
            cs.alloc(|| "ob", || give(s[1]))?,
            cs.alloc(|| "oc", || give(s[2]))?,
        ];
        let one = CS::one();
        let [a, b, c] = &self.lc;
        cs.enforce(|| "a", |l| l + a, |l| l + one, |l| l + o[0]);
        cs.enforce(|| "b", |l| l + one, |l| l + b, |l| l + o[1]);
        cs.enforce(|| "c", |l| l + o[2], |l| l + one, |l| l + c);
        if self.tie {
            cs.enforce(|| "y", |l| l + y, |l| l + one, |l| l + y);
            cs.enforce(|| "z", |l| l + one, |l| l + z, |l| l + z);
        }
        Ok(())
    }
}

const G: u64 = 18446744069414584321;
type E = Toy<G>;
fn proofs(ops: &[J], rng: &mut Rng) -> J {
    type S = Fp<G>;
    let regs = history::<S>(ops);
    let pick = |rng: &mut Rng| regs.len() - 1 - (rng.below(4) as usize).min(regs.len() - 1);
    let k = [pick(rng), regs.len() - 1, pick(rng)];
    let k = match rng.below(3) {
        0 => k,
        1 => [k[1], k[0], k[2]],
        _ => [k[0], k[2], k[1]],
    };
    let w = [
        S::ONE_,
        Fp::new(rng.next() % G),
        Fp::new(rng.next() % G),
        Fp::new(rng.next() % G),
    ];
    let tie = rng.below(3) > 0;
    let form = |plain: bool, known: bool| Case::<S> {
        lc: [0, 1, 2].map(|i| {
            if plain {
                written(&sums(&regs[k[i]]))
            } else {
                regs[k[i]].clone()
            }
        }),
        w,
        tie,
        known,
    };
    let mut r = || 1 + rng.next() % (G - 1);
    let t = [r(), r(), r(), r(), r(), r(), r()];
    let gen = |plain: bool| {
        generate_parameters::<E, _>(
            form(plain, false),
            G1(t[0]),
            G2(t[1]),
            Fp(t[2]),
            Fp(t[3]),
            Fp(t[4]),
            Fp(t[5]),
            Fp(t[6]),
        )
    };
    let (rr, ss) = (Fp::<G>(r()), Fp::<G>(r()));
    let name = |e: &SynthesisError| err_name(e).to_string();
    let ps = [gen(false), gen(true)];
    let mut o = obj! {};
    match (&ps[0], &ps[1]) {
        (Err(a), Err(b)) => {
            o.push("params", name(a) == name(b));
            o.push("err", name(a));
            o.push("proofs", J::Arr(vec![]));
            o.push("ver", J::Arr(vec![]));
        }
        (Ok(a), Ok(b)) => {
            o.push("params", a == b);
            o.push("err", "");
            let mut first: Option<Proof<E>> = None;
            let (mut pj, mut vj) = (vec![], vec![]);
            for p in [a, b] {
                for plain in [false, true] {
                    match create_proof::<E, _, _>(form(plain, true), p, rr, ss) {
                        Ok(pf) => {
                            let pvk = prepare_verifying_key(&p.vk);
                            vj.push(J::from(match verify_proof(&pvk, &pf, &[w[1]]) {
                                Ok(()) => "ok",
                                Err(e) => verr_name(&e),
                            }));
                            pj.push(J::from(first.as_ref().map(|f| *f == pf).unwrap_or(true)));
                            if first.is_none() {
                                first = Some(pf);
                            }
                        }
                        Err(e) => {
                            vj.push(J::from(name(&e)));
                            pj.push(J::from(false));
                        }
                    }
                }
            }
            o.push("proofs", J::Arr(pj));
            o.push("ver", J::Arr(vj));
        }
        (a, b) => {
            o.push("params", false);
            o.push(
                "err",
                a.as_ref().err().or(b.as_ref().err()).map(name).unwrap(),
            );
            o.push("proofs", J::Arr(vec![]));
            o.push("ver", J::Arr(vec![]));
        }
    }
    o
}

fn case<S: PrimeField>(q: i64, ops: &[J], rng: &mut Rng, nenf: usize, ng16: usize) -> J {
    let r = guard(|| {
        let regs = history::<S>(ops);
        let rj: Vec<J> = regs
            .iter()
            .map(|l| {
                J::Arr(
                    l.as_ref()
                        .iter()
                        .map(|(v, c)| J::Arr(vec![num(*v).into(), show(q, c).into()]))
                        .collect(),
                )
            })
            .collect();
        let mut ej = vec![];
        for _ in 0..nenf {
            let last = regs.len() - 1;
            let mut k = [last, last, rng.below(regs.len() as u64) as usize];
            for i in 0..2 {
                if rng.coin() {
                    k[i] = rng.below(regs.len() as u64) as usize;
                }
            }
            // Products of small coefficients only, so that TLC can multiply.
            if q == 0 {
                for i in k.iter_mut() {
                    while sums(&regs[*i]).iter().any(|c| show(q, c).abs() > 2000) {
                        *i = rng.below(regs.len() as u64) as usize;
                    }
                }
            }
            // Half of the time an assignment that satisfies the constraint, if one is found.
            let want = rng.coin();
            let mut w = [S::ONE; 4];
            let mut wi = [1i64; 4];
            let s: Vec<[S; 4]> = k.iter().map(|i| sums(&regs[*i])).collect();
            for _ in 0..40 {
                for i in 1..4 {
                    wi[i] = if q == 0 {
                        rng.below(7) as i64 - 3
                    } else {
                        rng.below(q as u64) as i64
                    };
                    w[i] = fe(wi[i]);
                }
                if !want || value(&s[0], &w) * value(&s[1], &w) == value(&s[2], &w) {
                    break;
                }
            }
            let cs = tcs(&w, &regs[k[0]], &regs[k[1]], &regs[k[2]]);
            let mut rec = Rec::<S>::new(Mode::Witness);
            vars(&mut rec, &w);
            rec.enforce(
                || "e",
                |l| l + &regs[k[0]],
                |l| l + &regs[k[1]],
                |l| l + &regs[k[2]],
            );
            let sum_of = |l: &Lc<S>| {
                let mut s = [S::ZERO; 4];
                for (a, i, c) in l {
                    s[if *a { 2 + i } else { *i }] += c;
                }
                s
            };
            let c0 = &rec.cons[0];
            let same = sum_of(&c0.0) == s[0] && sum_of(&c0.1) == s[1] && sum_of(&c0.2) == s[2];
            let sat = cs.is_satisfied();
            let hashed = S::ZERO.to_repr().as_ref().len() == 32;
            let mut h = vec![];
            if hashed {
                let base = cs.hash();
                let plain: Vec<_> = s.iter().map(written).collect();
                h.push(J::from(
                    (tcs(&w, &plain[0], &plain[1], &plain[2]).hash() == base) as usize,
                ));
                for i in 0..3 {
                    let mut p: Vec<_> = plain.clone();
                    p[i] = p[i].clone() + var(1 + rng.below(4) as usize);
                    h.push(J::from(
                        (tcs(&w, &p[0], &p[1], &p[2]).hash() == base) as usize,
                    ));
                }
            }
            ej.push(obj! {"a"=>k[0]+1,"b"=>k[1]+1,"c"=>k[2]+1,"w"=>wi.to_vec(),
            "sat"=>sat && cs.which_is_unsatisfied().is_none(),"same"=>same,"hashed"=>hashed,"hash"=>J::Arr(h)});
        }
        let mut gj = vec![];
        for _ in 0..ng16 {
            gj.push(proofs(ops, rng));
        }
        (rj, ej, gj)
    });
    let mut o = obj! {"q"=>q, "ops"=>J::Arr(ops.to_vec())};
    match r {
        Ok((a, b, c)) => {
            o.push("panic", 0usize);
            o.push("regs", J::Arr(a));
            o.push("enf", J::Arr(b));
            o.push("g16", J::Arr(c));
        }
        Err(_) => {
            o.push("panic", 1usize);
            o.push("regs", J::Arr(vec![]));
            o.push("enf", J::Arr(vec![]));
            o.push("g16", J::Arr(vec![]));
        }
    }
    o
}

trait One {
    const ONE_: Self;
}
impl<const P: u64> One for Fp<P> {
    const ONE_: Self = Fp(1);
}

/// lin run OUT PROGRAMS FIELDS ENF G16 PART OF; the fields are primes, or 0 for BLS12-381.
fn main() {
    quiet_panics();
    let mut out = Out::new(&arg(2));
    let progs = json::read_lines(&arg(3));
    let fields = arg(4);
    let nenf: usize = arg(5).parse().unwrap();
    let ng: usize = arg(6).parse().unwrap();
    let part: usize = arg(7).parse().unwrap();
    let of: usize = arg(8).parse().unwrap();
    for (i, pr) in progs.iter().enumerate() {
        if i % of != part {
            continue;
        }
        for f in fields.split(',') {
            let mut rng = Rng::new(seed() ^ ((i as u64) << 8));
            let q: i64 = f.parse().unwrap();
            let o = pr.arr();
            out.put(&match q {
                13 => case::<Fp<13>>(q, o, &mut rng, nenf, ng),
                40961 => case::<Fp<40961>>(q, o, &mut rng, nenf, ng),
                0 => case::<Scalar>(q, o, &mut rng, nenf, ng),
                _ => panic!("harness: field"),
            });
        }
    }
}
