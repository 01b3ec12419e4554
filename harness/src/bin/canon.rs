//! Decompositions of numbers over large fields, with guided adversaries: every way in
//! which a string of bits can first depart from the modulus, recorded for CanonTrace.tla.
use bellman::gadgets::boolean::Boolean;
use bellman::gadgets::num::AllocatedNum;
use bellman::*;
use conf::obs;
use conf::rec::{lc_of, Lc, Mode, Rec};
use conf::rng::Rng;
use conf::toy::Fp;
use conf::util::*;
use conf::obj;
use ff::{PrimeField, PrimeFieldBits};
use std::collections::BTreeMap;

type Var = (bool, usize);
/// A constant and terms.
fn known<S: PrimeField>(l: &Lc<S>, val: &BTreeMap<Var, S>) -> (S, BTreeMap<Var, S>) {
    let (mut c, mut m) = (S::ZERO, BTreeMap::new());
    for (a, i, k) in l {
        match val.get(&(*a, *i)) {
            Some(v) => c += *v * *k,
            None => *m.entry((*a, *i)).or_insert(S::ZERO) += *k,
        }
    }
    m.retain(|_, k| *k != S::ZERO);
    (c, m)
}
type Con<S> = (Lc<S>, Lc<S>, Lc<S>);
/// Can the assignment be completed? 1 yes, 0 no, -1 gave up.
fn complete<S: PrimeField>(cons: &[Con<S>], val: &mut BTreeMap<Var, S>, fuel: &mut usize) -> i64 {
    let mut open: Vec<&Con<S>> = cons.iter().collect();
    let mut two: Option<(Var, S, S)> = None;
    loop {
        let mut rest = vec![];
        let before = val.len();
        for k in open {
            let (a0, a) = known(&k.0, val);
            let (b0, b) = known(&k.1, val);
            let (c0, c) = known(&k.2, val);
            let mut vs: Vec<Var> = a.keys().chain(b.keys()).chain(c.keys()).cloned().collect();
            vs.sort();
            vs.dedup();
            // a product with a zero in it leaves a linear equation
            if vs.is_empty() {
                if a0 * b0 != c0 {
                    return 0;
                }
                continue;
            }
            let zero = (a.is_empty() && a0 == S::ZERO) || (b.is_empty() && b0 == S::ZERO);
            if zero && c.is_empty() {
                if c0 != S::ZERO {
                    return 0;
                }
                continue;
            }
            if vs.len() == 1 {
                let g = |m: &BTreeMap<Var, S>| m.get(&vs[0]).cloned().unwrap_or(S::ZERO);
                let (a1, b1, c1) = (g(&a), g(&b), g(&c));
                let (q, l, z) = (a1 * b1, a0 * b1 + a1 * b0 - c1, a0 * b0 - c0);
                if q == S::ZERO {
                    if l == S::ZERO {
                        if z != S::ZERO {
                            return 0;
                        }
                    } else {
                        val.insert(
                            vs[0],
                            if l == S::ONE {
                                -z
                            } else if l == -S::ONE {
                                z
                            } else {
                                -z * l.invert().unwrap()
                            },
                        );
                    }
                    continue;
                }
                // only products of two known factors can be split without roots
                if c1 == S::ZERO && c0 == S::ZERO {
                    let (x, y) = (-a0 * a1.invert().unwrap(), -b0 * b1.invert().unwrap());
                    two = Some((vs[0], x, y));
                }
            }
            rest.push(k);
        }
        open = rest;
        if open.is_empty() {
            return 1;
        }
        if val.len() == before {
            break;
        }
        two = None;
    }
    let Some((v, x, y)) = two else { return -1 };
    let mut res = 0;
    for k in [x, y] {
        if *fuel == 0 {
            return -1;
        }
        *fuel -= 1;
        let mut w = val.clone();
        w.insert(v, k);
        match complete(cons, &mut w, fuel) {
            1 => return 1,
            -1 => res = -1,
            _ => (),
        }
    }
    res
}

fn bits_of<S: PrimeField>(x: &S, w: usize) -> Vec<u64> {
    let r = x.to_repr();
    (0..w)
        .map(|i| {
            r.as_ref()
                .get(i / 8)
                .map_or(0, |y| (y >> (i % 8)) as u64 & 1)
        })
        .collect()
}
fn from_bits<S: PrimeField>(b: &[u64]) -> S {
    b.iter()
        .rev()
        .fold(S::ZERO, |a, x| a.double() + S::from(*x))
}

fn synth<S: PrimeFieldBits>(
    x: Option<S>,
    strict: bool,
    mode: Mode,
) -> Result<(Rec<S>, Vec<Boolean>, Lc<S>), SynthesisError> {
    let mut cs = Rec::<S>::new(mode);
    let n = AllocatedNum::alloc(cs.namespace(|| "x"), || {
        x.ok_or(SynthesisError::AssignmentMissing)
    })?;
    let b = if strict {
        n.to_bits_le_strict(cs.namespace(|| "bits"))?
    } else {
        n.to_bits_le(cs.namespace(|| "bits"))?
    };
    let x = lc_of(&(LinearCombination::zero() + n.get_variable()));
    Ok((cs, b, x))
}

/// The strings that the rows try: from the least significant bit on.
fn patterns(m: &[u64], rng: &mut Rng, extra: usize) -> Vec<Vec<u64>> {
    let n = m.len();
    let mut v = vec![m.to_vec(), vec![0; n], vec![1; n]];
    for j in 0..n {
        // as r - 1 above position j, different there
        for suf in 0..5 {
            let mut b = m.to_vec();
            b[j] ^= 1;
            for i in 0..j {
                b[i] = match suf {
                    0 => 0,
                    1 => 1,
                    2 => m[i],
                    3 => 1 - m[i],
                    _ => rng.below(2),
                };
            }
            v.push(b);
        }
        // no bit at all
        let mut b: Vec<u64> = if rng.coin() {
            m.to_vec()
        } else {
            (0..n).map(|_| rng.below(2)).collect()
        };
        b[j] = 2;
        if j + 1 < n && b[j + 1] == 1 {
            b[j + 1] = 0;
        }
        v.push(b);
    }
    for _ in 0..extra {
        v.push((0..n).map(|_| rng.below(2)).collect());
    }
    v
}

fn field<S: PrimeFieldBits>(out: &mut Out, rng: &mut Rng, name: &str, extra: usize, which: &[bool]) {
    let which = which.iter().cloned();
    let n = S::NUM_BITS as usize;
    let m = bits_of(&-S::ONE, n);
    for strict in which {
        let mut rows = vec![];
        let r = guard(|| {
            let (shape, bits, num) = synth::<S>(None, strict, Mode::Shape).map_err(|_| ()).unwrap();
            let lcs = obs::lcs::<S>(&bits);
            for b in patterns(&m, rng, extra) {
                let right = from_bits::<S>(&b);
                for off in 0..if rng.below(8) == 0 { 2 } else { 1 } {
                    let x = right + S::from(off);
                    let mut val = BTreeMap::new();
                    val.insert((false, 0), S::ONE);
                    val.insert((num[0].0, num[0].1), x);
                    let mut cons = shape.cons.clone();
                    for (l, v) in lcs.iter().zip(&b) {
                        cons.push((
                            l.clone(),
                            vec![(false, 0, S::ONE)],
                            vec![(false, 0, S::from(*v))],
                        ));
                    }
                    let sat = complete(&cons, &mut val, &mut 64);
                    rows.push(obj! {"k"=>"try","x"=>bits_of(&x, n),"bits"=>b.clone(),"sat"=>sat});
                }
                // the honest prover
                if b.iter().all(|x| *x < 2) {
                    let (cs, got, _) = synth(Some(right), strict, Mode::Witness)
                        .map_err(|_| ())
                        .unwrap();
                    rows.push(obj! {"k"=>"run","x"=>bits_of(&right, n),
                    "claim"=>obs::claims(&got),"worth"=>obs::worths(&cs, &got),
                    "sat"=>i64::from(cs.unsatisfied().is_none())});
                }
            }
        });
        out.put(
            &obj! {"field"=>name,"strict"=>strict,"panic"=>r.is_err(),"msg"=>r.err().unwrap_or_default(),
            "m"=>m.clone(),"rows"=>rows},
        );
    }
}

const BOTH: &[bool] = &[true, false];
/// canon run OUT PART
fn main() {
    quiet_panics();
    let mut out = Out::new(&arg(2));
    let part: usize = arg(3).parse().unwrap();
    let mut rng = Rng::new(seed() ^ 0xca0 ^ part as u64);
    let e = tier(100, 2000);
    match part {
        0 => field::<bls12_381::Scalar>(&mut out, &mut rng, "bls", e, &[true]),
        8 => field::<bls12_381::Scalar>(&mut out, &mut rng, "bls", e, &[false]),
        1 => field::<Fp<18446744069414584321>>(&mut out, &mut rng, "2^64-2^32+1", e, BOTH),
        2 => field::<Fp<3377698314703681>>(&mut out, &mut rng, "3377698314703681", e, BOTH),
        3 => field::<Fp<1536636952267955539>>(&mut out, &mut rng, "1536636952267955539", e, BOTH),
        4 => field::<Fp<6944937866166301>>(&mut out, &mut rng, "6944937866166301", e, BOTH),
        5 => field::<Fp<3050432890619614501>>(&mut out, &mut rng, "3050432890619614501", e, BOTH),
        6 => field::<Fp<2305843009213693951>>(&mut out, &mut rng, "2^61-1", e, BOTH),
        _ => {
            field::<Fp<2147483647>>(&mut out, &mut rng, "2^31-1", e, BOTH);
            field::<Fp<40961>>(&mut out, &mut rng, "40961", e, BOTH);
            field::<Fp<5>>(&mut out, &mut rng, "5", e, BOTH);
        }
    }
}
