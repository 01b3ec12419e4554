//! Packing of bits and bytes, and equalities of bounded values over the real field and toy
//! fields, recorded for PackTrace.tla.
use bellman::gadgets::boolean::{AllocatedBit, Boolean};
use bellman::gadgets::multieq::MultiEq;
use bellman::gadgets::multipack::*;
use bellman::gadgets::test::TestConstraintSystem;
use bellman::*;
use conf::rec::{Mode, Rec};
use conf::rng::Rng;
use conf::toy::Fp;
use conf::util::*;
use conf::{obj, J};
use ff::PrimeField;

/// Something that can tell whether it is satisfied (the test system keeps its values by
/// path and hashes, which needs nothing of the toy fields here).
fn bits_of<S: PrimeField>(x: &S, w: usize) -> Vec<u64> {
    let r = x.to_repr();
    let b = r.as_ref();
    let v: Vec<u64> = (0..w)
        .map(|i| b.get(i / 8).map_or(0, |y| (y >> (i % 8)) as u64 & 1))
        .collect();
    // no bits beyond: the repr is canonical
    for i in w..b.len() * 8 {
        assert!((b[i / 8] >> (i % 8)) & 1 == 0, "harness: wide repr");
    }
    v
}
fn from_bits<S: PrimeField>(b: &[u64]) -> S {
    b.iter().rev().fold(S::ZERO, |a, x| a.double() + S::from(*x))
}

fn pack<S: PrimeField>(rng: &mut Rng, n: usize, kinds: bool) -> J {
    let w = S::NUM_BITS as usize;
    let pat = rng.below(6);
    let bits: Vec<bool> = (0..n)
        .map(|i| match pat {
            0 => true,
            1 => i % 2 == 0,
            2 => i + 1 == n,
            3 => rng.below(8) == 0,
            _ => rng.coin(),
        })
        .collect();
    let packed: Vec<S> = compute_multipacking(&bits);
    let mut cs = TestConstraintSystem::<S>::new();
    let mut rec = Rec::<S>::new(Mode::Witness);
    fn wires<S: PrimeField, CS: ConstraintSystem<S>>(cs: &mut CS, bits: &[bool], kinds: &[u64]) {
        let v: Vec<Boolean> = bits
            .iter()
            .zip(kinds)
            .enumerate()
            .map(|(i, (b, k))| match k {
                0 => Boolean::constant(*b),
                1 => Boolean::from(
                    AllocatedBit::alloc(cs.namespace(|| format!("n{}", i)), Some(!*b)).unwrap(),
                )
                .not(),
                _ => Boolean::from(
                    AllocatedBit::alloc(cs.namespace(|| format!("b{}", i)), Some(*b)).unwrap(),
                ),
            })
            .collect();
        pack_into_inputs(cs.namespace(|| "pack"), &v).unwrap();
    }
    let ks: Vec<u64> = (0..n).map(|_| if kinds { rng.below(4) } else { 2 }).collect();
    wires(&mut cs, &bits, &ks);
    wires(&mut rec, &bits, &ks);
    let inputs: Vec<S> = rec.inputs[1..].iter().map(|x| x.unwrap()).collect();
    // other input values are refused
    let mut other = vec![];
    for i in 0..packed.len().min(4) {
        let j = (i * 7) % packed.len();
        let mut p = packed.clone();
        p[j] += S::ONE;
        other.push(u64::from(cs.verify(&p)));
    }
    if !packed.is_empty() {
        // (another number of inputs may be refused by a panic)
        other.push(u64::from(
            guard(|| cs.verify(&packed[..packed.len() - 1])).unwrap_or(false),
        ));
    }
    let mut p = packed.clone();
    p.push(S::ZERO);
    other.push(u64::from(guard(|| cs.verify(&p)).unwrap_or(false)));
    obj! {"k"=>"pack","cap"=>S::CAPACITY,"w"=>w,
    "bits"=>bits.iter().map(|b| u64::from(*b)).collect::<Vec<_>>(),
    "packed"=>packed.iter().map(|x| J::from(bits_of(x, w))).collect::<Vec<_>>(),
    "inputs"=>inputs.iter().map(|x| J::from(bits_of(x, w))).collect::<Vec<_>>(),
    "sat"=>cs.is_satisfied() && rec.unsatisfied().is_none(),
    "verify"=>cs.verify(&packed),
    "other"=>other}
}

fn bytes(rng: &mut Rng, n: usize) -> J {
    let b: Vec<u8> = (0..n).map(|_| rng.next() as u8).collect();
    let f = |v: Vec<bool>| v.into_iter().map(u64::from).collect::<Vec<_>>();
    obj! {"k"=>"bytes","bytes"=>b.clone(),"be"=>f(bytes_to_bits(&b)),"le"=>f(bytes_to_bits_le(&b))}
}

/// Equalities eqs[i] = (width, left bits, right bits).
fn meq<S: PrimeField>(rng: &mut Rng, eqs: &[(usize, Vec<u64>, Vec<u64>)]) -> J {
    let mut cs = TestConstraintSystem::<S>::new();
    let mut rec = Rec::<S>::new(Mode::Witness);
    fn go<S: PrimeField, CS: ConstraintSystem<S>>(
        cs: &mut CS,
        eqs: &[(usize, Vec<u64>, Vec<u64>)],
        how: &[u64],
    ) {
        let mut m = MultiEq::new(cs.namespace(|| "meq"));
        for (i, (w, a, b)) in eqs.iter().enumerate() {
            let mut side = |s: &str, v: &[u64]| -> LinearCombination<S> {
                if how[i] == 0 {
                    let x: S = from_bits(v);
                    let x = m.alloc(|| format!("{}{}", s, i), || Ok(x)).unwrap();
                    LinearCombination::zero() + x
                } else {
                    let mut l = LinearCombination::zero();
                    let mut c = S::ONE;
                    for (j, b) in v.iter().enumerate() {
                        if how[i] == 1 {
                            l = l + (c * S::from(*b), CS::one());
                        } else {
                            let x = m
                                .alloc(|| format!("{}{} {}", s, i, j), || Ok(S::from(*b)))
                                .unwrap();
                            l = l + (c, x);
                        }
                        c = c.double();
                    }
                    l
                }
            };
            let l = side("l", a);
            let r = side("r", b);
            m.enforce_equal(*w, &l, &r);
        }
    }
    let how: Vec<u64> = eqs.iter().map(|_| rng.below(3)).collect();
    go(&mut cs, eqs, &how);
    go(&mut rec, eqs, &how);
    let sat = cs.is_satisfied();
    assert!(sat == rec.unsatisfied().is_none(), "verdicts differ");
    obj! {"k"=>"meq","sat"=>sat,
    "eqs"=>eqs.iter().map(|(w,a,b)| J::Arr(vec![J::from(*w),a.clone().into(),b.clone().into()])).collect::<Vec<_>>()}
}

/// What one more on the left of each equality does to each constraint, from what was
/// really emitted for equalities of these widths.
fn effects<S: PrimeField>(widths: &[usize]) -> Vec<Vec<S>> {
    let mut rec = Rec::<S>::new(Mode::Witness);
    {
        let mut m = MultiEq::new(rec.namespace(|| "meq"));
        for (i, w) in widths.iter().enumerate() {
            let l = m.alloc(|| format!("l{}", i), || Ok(S::ZERO)).unwrap();
            let r = m.alloc(|| format!("r{}", i), || Ok(S::ZERO)).unwrap();
            m.enforce_equal(
                *w,
                &(LinearCombination::zero() + l),
                &(LinearCombination::zero() + r),
            );
        }
    }
    let residues = |rec: &Rec<S>| -> Vec<S> {
        rec.cons
            .iter()
            .map(|(a, b, c)| {
                rec.value(a).unwrap() * rec.value(b).unwrap() - rec.value(c).unwrap()
            })
            .collect()
    };
    (0..widths.len())
        .map(|i| {
            rec.aux[2 * i] = Some(S::ONE);
            let r = residues(&rec);
            rec.aux[2 * i] = Some(S::ZERO);
            r
        })
        .collect()
}
/// The absolute value and sign of c as an integer of at most w bits.
fn small<S: PrimeField>(c: S, w: usize) -> Option<(bool, Vec<u64>)> {
    for (neg, x) in [(false, c), (true, -c)] {
        let b = bits_of(&x, S::NUM_BITS as usize);
        if b[w.min(b.len())..].iter().all(|y| *y == 0) {
            return Some((neg, b[..w.min(b.len())].to_vec()));
        }
    }
    None
}
/// Equalities of these widths, some of which are false, such that the errors make up for
/// each other under the weights that were really used, if that is possible with two.
fn cancel<S: PrimeField>(rng: &mut Rng, widths: &[usize]) -> Vec<(usize, Vec<u64>, Vec<u64>)> {
    let e = effects::<S>(widths);
    let n = widths.len();
    let mut errs: Vec<(usize, bool, Vec<u64>)> = vec![];
    let mut found = vec![];
    for i in 0..n {
        if e[i].iter().all(|x| bool::from(x.is_zero())) {
            found.push(vec![(i, false, vec![1])]);
        }
        for j in 0..n {
            // 1 at i and c at j
            let k = e[j].iter().position(|x| !bool::from(x.is_zero()));
            if let (true, Some(k)) = (i != j, k) {
                let c = -e[i][k] * e[j][k].invert().unwrap();
                if (0..e[i].len()).all(|k| e[i][k] + c * e[j][k] == S::ZERO) {
                    if let Some((neg, b)) = small(c, widths[j]) {
                        found.push(vec![(i, false, vec![1]), (j, neg, b)]);
                    }
                }
            }
        }
    }
    if !found.is_empty() {
        errs = found[rng.below(found.len() as u64) as usize].clone();
    } else if n > 1 {
        let i = rng.below(n as u64) as usize;
        let j = (i + 1 + rng.below(n as u64 - 1) as usize) % n;
        let mut bit = |i: usize| {
            let b = rng.below(widths[i] as u64) as usize;
            let mut v = vec![0; b + 1];
            v[b] = 1;
            v
        };
        errs.push((i, false, bit(i)));
        errs.push((j, true, bit(j)));
    }
    (0..n)
        .map(|i| {
            let w = widths[i];
            match errs.iter().find(|x| x.0 == i) {
                None => {
                    let v: Vec<u64> = (0..w).map(|_| rng.below(2)).collect();
                    (w, v.clone(), v)
                }
                Some((_, neg, d)) => {
                    let mut v = d.clone();
                    v.resize(w, 0);
                    if *neg {
                        (w, vec![0; w], v)
                    } else {
                        (w, v, vec![0; w])
                    }
                }
            }
        })
        .collect()
}

fn meqs<S: PrimeField>(rng: &mut Rng, out: &mut Vec<J>, runs: usize) {
    let cap = S::CAPACITY as usize;
    let nb = S::NUM_BITS as usize;
    // the modulus, as bits
    let mut modulus = bits_of(&-S::ONE, nb);
    modulus[0] = 1; // r - 1 is even
    for run in 0..runs {
        let mut eqs: Vec<(usize, Vec<u64>, Vec<u64>)> = vec![];
        let style = run % 8;
        let rnd = |rng: &mut Rng, w: usize| (0..w).map(|_| rng.below(2)).collect::<Vec<_>>();
        let width = |rng: &mut Rng| {
            1 + match rng.below(4) {
                0 => rng.below(cap as u64 - 1),
                1 => rng.below((cap as u64 / 2).max(1)),
                2 => rng.below((cap as u64 / 5).max(1)),
                _ => cap as u64 - 2 - rng.below(3.min(cap as u64 - 1)),
            } as usize
        };
        if style >= 6 {
            let ws: Vec<usize> = match rng.below(3) {
                0 => (0..1 + rng.below(9)).map(|_| width(rng)).collect(),
                1 => {
                    let w = 1 + rng.below((cap as u64 / 6).max(1)) as usize;
                    vec![w; (2 * cap / w).min(24)]
                }
                _ => (0..2 + rng.below(14))
                    .map(|_| 1 + rng.below((cap as u64 / 8).max(1)) as usize)
                    .collect(),
            };
            let ws: Vec<usize> = ws.into_iter().map(|w| w.min(cap - 1)).collect();
            eqs = cancel::<S>(rng, &ws);
        } else if style < 2 {
            // honest, or wrong in one place
            for _ in 0..1 + rng.below(9) {
                let w = width(rng);
                let v = rnd(rng, w);
                eqs.push((w, v.clone(), v));
            }
            if style == 1 {
                let i = rng.below(eqs.len() as u64) as usize;
                let b = rng.below(eqs[i].0 as u64) as usize;
                eqs[i].1[b] ^= 1;
            }
        } else {
            // equal ones first, then digits of the modulus in a mixture of widths that adds
            // up to the number of bits, or one more or less: false, but true modulo r if
            // everything is added up
            let mut used = 0;
            if style >= 4 {
                for _ in 0..rng.below(4) {
                    let w = width(rng);
                    let v = rnd(rng, w);
                    eqs.push((w, v.clone(), v));
                    used += w;
                }
            }
            let total = nb + 1 - rng.below(3) as usize;
            let _ = used;
            let mut at = 0;
            while at < total {
                let mut w = width(rng).min(cap - 1);
                if style % 2 == 0 {
                    w = w.min(total - at)
                }
                let d: Vec<u64> = (at..at + w).map(|i| *modulus.get(i).unwrap_or(&0)).collect();
                // left - right = digit, in one of two ways
                if rng.coin() {
                    eqs.push((w, d, vec![0; w]));
                } else {
                    // 2^w - 1 on the left, the complement of the digit on the right
                    eqs.push((w, vec![1; w], d.iter().map(|x| 1 - x).collect()));
                }
                at += w;
            }
        }
        out.push(meq::<S>(rng, &eqs));
    }
}

fn case(name: &str, f: impl FnOnce(&mut Vec<J>)) -> J {
    let mut ev = vec![];
    let r = guard(|| f(&mut ev));
    obj! {"field"=>name,"panic"=>i64::from(r.is_err()),"msg"=>r.err().unwrap_or_default(),"ev"=>ev}
}

fn lens(cap: usize, rng: &mut Rng, big: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=(cap * 3 + 2).min(40)).collect();
    for k in 1..=4 {
        for d in 0..3 {
            v.push(k * cap + d - 1)
        }
    }
    for _ in 0..big {
        v.push(rng.below(6 * cap as u64) as usize)
    }
    v
}

macro_rules! fields {
    ($m:ident) => {
        $m!(bls12_381::Scalar, "bls");
        $m!(Fp<5>, "5");
        $m!(Fp<7>, "7");
        $m!(Fp<13>, "13");
        $m!(Fp<31>, "31");
        $m!(Fp<47>, "47");
        $m!(Fp<193>, "193");
        $m!(Fp<257>, "257");
        $m!(Fp<40961>, "40961");
    };
}

/// pack run OUT
fn main() {
    quiet_panics();
    let mut out = Out::new(&arg(2));
    let mut rng = Rng::new(seed() ^ 0x9ac4);
    let big = tier(6, 60);
    macro_rules! packs {
        ($t:ty, $n:expr) => {
            for n in lens(<$t>::CAPACITY as usize, &mut rng, big) {
                let mut r2 = Rng::new(rng.next());
                out.put(&case($n, |ev| {
                    ev.push(pack::<$t>(&mut r2, n, false));
                    ev.push(pack::<$t>(&mut r2, n, true));
                }));
            }
        };
    }
    fields!(packs);
    macro_rules! eqs {
        ($t:ty, $n:expr) => {
            if <$t>::CAPACITY > 2 {
                for _ in 0..tier(12, 120) {
                    let mut r2 = Rng::new(rng.next());
                    out.put(&case($n, |ev| meqs::<$t>(&mut r2, ev, 16)));
                }
            }
        };
    }
    fields!(eqs);
    for n in (0..20).chain([31, 32, 33, 64, 100]) {
        let mut r2 = Rng::new(rng.next());
        out.put(&case("bytes", |ev| {
            for _ in 0..4 {
                ev.push(bytes(&mut r2, n))
            }
        }));
    }
    // every byte
    let mut ev = vec![];
    let r = guard(|| {
        for i in 0..=255u8 {
            let f = |v: Vec<bool>| v.into_iter().map(u64::from).collect::<Vec<_>>();
            ev.push(obj! {"k"=>"bytes","bytes"=>vec![i],"be"=>f(bytes_to_bits(&[i])),"le"=>f(bytes_to_bits_le(&[i]))});
        }
    });
    out.put(&obj! {"field"=>"bytes","panic"=>i64::from(r.is_err()),"msg"=>"","ev"=>ev});
}
