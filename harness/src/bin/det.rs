//! The same computations whatever the number of threads (C08).
use bellman::domain::{EvaluationDomain, Point, Scalar};
use bellman::multicore::Worker;
use bellman::multiexp::{multiexp, DensityTracker, FullDensity};
use conf::circ::*;
use conf::g16::*;
use conf::obj;
use conf::rng::Rng;
use conf::toy::*;
use conf::util::*;
use ff::PrimeField;
use std::fmt::Debug;
use std::sync::Arc;

const P: u64 = 40961;
type S = Fp<P>;

fn hash(s: &str) -> i64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    ((h ^ (h >> 32)) & 0x3fff_ffff) as i64
}
fn put<R: Debug + Send + 'static>(
    out: &mut Out,
    name: String,
    f: impl FnOnce() -> R + Send + 'static,
) {
    let r = match timed(60, f) {
        Ok(Ok(r)) => hash(&format!("{:?}", r)),
        Ok(Err(_)) => -1,
        Err(_) => -2,
    };
    out.put(&obj! {"name"=>name,"out"=>r});
}
fn vec(rng: &mut Rng, n: usize) -> Vec<u64> {
    (0..n)
        .map(|_| match rng.below(9) {
            0 => 0,
            1 => 1,
            _ => rng.below(P),
        })
        .collect()
}

fn main() {
    quiet_panics();
    let mut out = Out::new(&arg(2));
    let mut rng = Rng::new(seed() * 31 + 8);
    // Transforms and pointwise operations.
    let mut ns: Vec<usize> = (1..=tier(40, 130)).collect();
    ns.extend([
        63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 512, 600, 1024, 2048,
    ]);
    for n in ns {
        for op in 0..8 {
            if n > 40 && (n + op) % 3 != 0 && !thorough() {
                continue;
            }
            let v = vec(&mut rng, n);
            let w = vec(&mut rng, n);
            let c = rng.below(P);
            let (v2, w2) = (v.clone(), w.clone());
            put(&mut out, format!("s{}.{}", op, n), move || {
                let worker = Worker::new();
                let mk = |v: &[u64]| {
                    EvaluationDomain::from_coeffs(v.iter().map(|x| Scalar(S::new(*x))).collect())
                        .map_err(|_| ())
                        .unwrap()
                };
                let mut d = mk(&v);
                match op {
                    0 => d.fft(&worker),
                    1 => d.ifft(&worker),
                    2 => d.coset_fft(&worker),
                    3 => d.icoset_fft(&worker),
                    4 => d.distribute_powers(&worker, S::new(c)),
                    5 => d.mul_assign(&worker, &mk(&w)),
                    6 => d.sub_assign(&worker, &mk(&w)),
                    _ => d.divide_by_z_on_coset(&worker),
                }
                d.into_coeffs().iter().map(|x| x.0 .0).collect::<Vec<u64>>()
            });
            put(&mut out, format!("p{}.{}", op, n), move || {
                let worker = Worker::new();
                let mk = |v: &[u64]| {
                    EvaluationDomain::<S, _>::from_coeffs(
                        v.iter().map(|x| Point(G1::<P>(*x))).collect(),
                    )
                    .map_err(|_| ())
                    .unwrap()
                };
                let mut d = mk(&v2);
                match op {
                    0 => d.fft(&worker),
                    1 => d.ifft(&worker),
                    2 => d.coset_fft(&worker),
                    3 => d.icoset_fft(&worker),
                    4 => d.distribute_powers(&worker, S::new(c)),
                    5 => {
                        let m = EvaluationDomain::from_coeffs(
                            w2.iter().map(|x| Scalar(S::new(*x))).collect(),
                        )
                        .map_err(|_| ())
                        .unwrap();
                        d.mul_assign(&worker, &m)
                    }
                    6 => d.sub_assign(&worker, &mk(&w2)),
                    _ => d.divide_by_z_on_coset(&worker),
                }
                d.into_coeffs().iter().map(|x| x.0 .0).collect::<Vec<u64>>()
            });
        }
    }
    // Multiexponentiations, right and wrong.
    for k in 0..tier(150, 600) {
        let n = match k % 5 {
            0 => k / 5,
            1 => 28 + rng.below(8) as usize,
            2 => 140 + rng.below(30) as usize,
            3 => rng.below(400) as usize,
            _ => rng.below(30) as usize,
        };
        let ex = vec(&mut rng, n);
        let full = rng.coin();
        let dens: Vec<bool> = (0..n).map(|_| full || rng.below(3) > 0).collect();
        let cnt = dens.iter().filter(|b| **b).count();
        let mut bases: Vec<u64> = (0..cnt).map(|_| 1 + rng.below(P - 1)).collect();
        match k % 7 {
            0 if cnt > 0 => {
                bases.truncate(rng.below(cnt as u64) as usize);
            }
            1 if cnt > 0 => {
                let i = rng.below(cnt as u64) as usize;
                bases[i] = 0;
            }
            _ => {}
        }
        put(&mut out, format!("m{}", k), move || {
            let worker = Worker::new();
            let b: Arc<Vec<G1<P>>> = Arc::new(bases.iter().map(|x| G1(*x)).collect());
            let e: Arc<Vec<_>> = Arc::new(ex.iter().map(|x| S::new(*x).into()).collect());
            let r = if full {
                multiexp(&worker, (b, 0), FullDensity, e).wait()
            } else {
                let mut d = DensityTracker::new();
                for (i, x) in dens.iter().enumerate() {
                    d.add_element();
                    if *x {
                        d.inc(i)
                    }
                }
                multiexp(&worker, (b, 0), Arc::new(d), e).wait()
            };
            r.map(|g: G1<P>| g.0).map_err(|e| err_name(&e).to_string())
        });
    }
    // Whole runs of generator, prover and verifier.
    for k in 0..tier(60, 250) {
        let (i, a, c) = match k % 4 {
            0 => (k / 4 % 3, k / 4 % 5, k / 4 % 9),
            1 => (1 + k % 40, 3, 5),
            2 => (2, 20 + k % 30, 20 + k % 50),
            _ => (1, 8, 1 << (k / 4 % 7)),
        };
        let prog = Prog::random(&mut rng, P, i, a, c);
        let t = Tox::random(&mut rng, P);
        let (r, s) = (rng.below(P), rng.below(P));
        put(&mut out, format!("g{}", k), move || {
            let params = match generate::<P>(&prog, &t) {
                Err(e) => return (e, vec![], String::new()),
                Ok(p) => p,
            };
            let mut bytes = vec![];
            params.write(&mut bytes).unwrap();
            let (pf, _) = prove(&prog, &params, r, s);
            let v = match &pf {
                Ok(pf) => verify(&params.vk, pf, &prog.inputs()[1..]),
                Err(e) => e.clone(),
            };
            (format!("{:?}", pf.map(|p| (p.a, p.b, p.c))), bytes, v)
        });
        let _ = S::MULTIPLICATIVE_GENERATOR;
    }
}
