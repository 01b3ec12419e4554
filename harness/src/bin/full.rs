//! The whole of Groth16 over a field of real size, with groups in which every
//! secret can be read off (clear.rs).
use bellman::*;
use bls12_381::Scalar;
use conf::clear::*;
use conf::rng::Rng;
use conf::util::*;
use conf::{obj, J};
use ff::{Field, PrimeField};
use groth16::batch::*;
use groth16::*;

/// Dimensions and a seed; everything else follows. Every auxiliary variable is
/// the product of two linear combinations with full-size coefficients.
#[derive(Clone)]
struct Full {
    seed: u64,
    inputs: usize,
    aux: usize,
    /// Constraints between the inputs, besides one per auxiliary variable.
    more: usize,
    witness: bool,
    /// This auxiliary variable gets a wrong value.
    wrong: Option<usize>,
}
impl Full {
    fn new(seed: u64, inputs: usize, aux: usize, more: usize) -> Full {
        Full {
            seed,
            inputs,
            aux,
            more,
            witness: false,
            wrong: None,
        }
    }
    fn honest(&self) -> Full {
        Full {
            witness: true,
            ..self.clone()
        }
    }
    fn cheat(&self, k: usize) -> Full {
        Full {
            wrong: Some(k),
            ..self.honest()
        }
    }
    /// The last input is the value of the last auxiliary variable, the others are random.
    fn values(&self) -> (Vec<Scalar>, Vec<Scalar>) {
        let (mut inp, mut aux) = (vec![Scalar::one()], vec![]);
        let mut rng = Rng::new(self.seed ^ 0xabcdef);
        for _ in 0..self.inputs.saturating_sub(1) {
            inp.push(match rng.below(8) {
                0 => Scalar::zero(),
                1 => Scalar::one(),
                2 => -Scalar::one(),
                _ => Scalar::random(&mut rng),
            });
        }
        for k in 0..self.aux {
            let (a, b) = self.rows(k);
            let ev = |l: &Vec<(bool, usize, Scalar)>| {
                l.iter()
                    .map(|(x, i, c)| if *x { aux[*i] } else { inp[*i] } * c)
                    .sum::<Scalar>()
            };
            let v = ev(&a) * ev(&b);
            aux.push(v);
        }
        if self.inputs > 0 {
            inp.push(aux.last().copied().unwrap_or(Scalar::one()));
        }
        (inp, aux)
    }
    fn rows(&self, k: usize) -> (Vec<(bool, usize, Scalar)>, Vec<(bool, usize, Scalar)>) {
        let mut rng = Rng::new(self.seed * 65537 + k as u64);
        let mut row = || {
            let mut l = vec![];
            for j in 0..1 + rng.below(3) {
                let aux = k > 0 && (j == 0 || rng.coin());
                let n = if aux {
                    // Usually a recent one.
                    k - 1 - rng.below(k.min(5) as u64) as usize
                } else {
                    rng.below(self.inputs.max(1) as u64) as usize
                };
                let c = match rng.below(6) {
                    0 => Scalar::one(),
                    1 => -Scalar::one(),
                    _ => Scalar::random(&mut rng),
                };
                l.push((aux, n, c));
            }
            l
        };
        (row(), row())
    }
}
impl Circuit<Scalar> for Full {
    fn synthesize<CS: ConstraintSystem<Scalar>>(self, cs: &mut CS) -> Result<(), SynthesisError> {
        let (vi, mut va) = self.values();
        if let Some(k) = self.wrong {
            va[k] += Scalar::from(1 + k as u64);
        }
        let w = self.witness;
        let give = |v: Scalar| {
            if w {
                Ok(v)
            } else {
                Err(SynthesisError::AssignmentMissing)
            }
        };
        let mut inp = vec![CS::one()];
        for (i, v) in vi.iter().enumerate().skip(1) {
            inp.push(cs.alloc_input(|| format!("i{}", i), || give(*v))?);
        }
        let mut aux: Vec<Variable> = vec![];
        for k in 0..self.aux {
            aux.push(cs.alloc(|| format!("a{}", k), || give(va[k]))?);
            let (a, b) = self.rows(k);
            let lc = |l: LinearCombination<Scalar>, t: &Vec<(bool, usize, Scalar)>| {
                t.iter().fold(l, |l, (x, i, c)| {
                    l + (*c, if *x { aux[*i] } else { inp[*i] })
                })
            };
            cs.enforce(|| "c", |l| lc(l, &a), |l| lc(l, &b), |l| l + aux[k]);
        }
        for k in 0..self.more {
            // in * 1 = in; the last one binds the last input to the last variable.
            let i = inp[inp.len() - 1 - k % inp.len()];
            let o = match aux.last() {
                Some(x) if k == 0 && self.inputs > 0 => *x,
                _ => i,
            };
            cs.enforce(|| "m", |l| l + i, |l| l + CS::one(), |l| l + o);
        }
        Ok(())
    }
}

fn limbs(x: &Scalar) -> J {
    let r = x.to_repr();
    J::from(
        r.chunks(2)
            .map(|b| b[0] as u64 + 256 * b[1] as u64)
            .collect::<Vec<u64>>(),
    )
}
fn inv(x: Scalar) -> Scalar {
    x.invert().unwrap_or(Scalar::zero())
}
fn rows(out: &mut Out, of: &str, names: &[&str], rows: &[Vec<Scalar>]) {
    out.put(
        &obj! {"of"=>of,"names"=>names.iter().map(|s| s.to_string()).collect::<Vec<_>>(),
        "w"=>J::Arr(rows.iter().map(|r| J::Arr(r.iter().map(limbs).collect())).collect())},
    );
}
fn params(c: &Full, rng: &mut Rng) -> Option<Parameters<Clear>> {
    guard(|| generate_random_parameters::<Clear, _, _>(c.clone(), rng))
        .ok()?
        .ok()
}
fn verdict(
    vk: &VerifyingKey<Clear>,
    pf: &Result<Result<Proof<Clear>, SynthesisError>, String>,
    pubs: &[Scalar],
) -> String {
    match pf {
        Err(_) => "panic".into(),
        Ok(Err(e)) => err_name(e).into(),
        Ok(Ok(pf)) => match guard(|| verify_proof(&prepare_verifying_key(vk), pf, pubs)) {
            Err(_) => "panic".into(),
            Ok(Ok(())) => "ok".into(),
            Ok(Err(e)) => verr_name(&e).into(),
        },
    }
}

fn main() {
    quiet_panics();
    let mode = arg(1);
    let mut out = Out::new(&arg(2));
    let mut rng = Rng::new(seed() * 31 + mode.len() as u64);
    let n = tier(128, 1000);
    match mode.as_str() {
        // The secrets behind random parameters.
        "toxic" => {
            // One input x, y = x * x public: constraint 0 is the only one that mentions y's
            // square root, so its A query is the first Lagrange polynomial.
            let c = Full::new(3, 2, 3, 2);
            let mut w = vec![];
            let mut miss = 0;
            for _ in 0..n {
                let p = match params(&c, &mut rng) {
                    Some(p) => p,
                    None => {
                        miss += 1;
                        continue;
                    }
                };
                let h = p.h.to_vec();
                let a = p.a.to_vec();
                if h.len() < 2 || a.is_empty() {
                    miss += 1;
                    continue;
                }
                let tau = h[1].0 * inv(h[0].0);
                // The domain: the next power of two from constraints + inputs.
                let m = (c.aux + c.more + c.inputs + 1).next_power_of_two() as u64;
                let mut omega = Scalar::ROOT_OF_UNITY;
                let mut k = 1u64 << Scalar::S;
                while k > m {
                    omega = omega.square();
                    k /= 2;
                }
                let z = tau.pow_vartime(&[m, 0, 0, 0]) - Scalar::one();
                // h0 = g1 * z / delta and delta_g1 = g1 * delta give g1 squared; the
                // query of the constant one gives g1: its A row in the constraints, and
                // constraint number aux + more that the generator adds for it.
                let lag = |j: u64| {
                    let w = omega.pow_vartime(&[j, 0, 0, 0]);
                    z * w * inv((tau - w) * Scalar::from(m))
                };
                let mut u0 = lag((c.aux + c.more) as u64);
                for k in 0..c.aux {
                    for (x, i, v) in c.rows(k).0 {
                        if !x && i == 0 {
                            u0 += lag(k as u64) * v;
                        }
                    }
                }
                for k in 0..c.more {
                    if c.inputs - k % (c.inputs + 1) == 0 {
                        u0 += lag((c.aux + k) as u64);
                    }
                }
                let g1 = a[0].0 * inv(u0);
                let beta = p.vk.beta_g1.0 * inv(g1);
                let g2 = p.vk.beta_g2.0 * inv(beta);
                let delta = p.vk.delta_g1.0 * inv(g1);
                if g1.square() != h[0].0 * p.vk.delta_g1.0 * inv(z) {
                    miss += 1;
                    continue;
                }
                w.push(vec![
                    g1,
                    g2,
                    tau,
                    p.vk.alpha_g1.0 * inv(g1),
                    beta,
                    p.vk.gamma_g2.0 * inv(g2),
                    delta,
                ]);
            }
            rows(
                &mut out,
                "toxic",
                &["g1", "g2", "tau", "alpha", "beta", "gamma", "delta"],
                &w,
            );
            out.put(&obj! {"of"=>"missed","miss"=>miss,"n"=>n});
        }
        // The blinding values behind random proofs.
        "blind" => {
            for (k, c) in [Full::new(5, 1, 2, 1), Full::new(6, 3, 40, 5)]
                .iter()
                .enumerate()
            {
                let p = match params(c, &mut rng) {
                    Some(p) => p,
                    None => {
                        out.put(&obj! {"of"=>"missed","miss"=>n,"n"=>n});
                        continue;
                    }
                };
                let base = guard(|| {
                    create_proof::<Clear, _, _>(c.honest(), &p, Scalar::zero(), Scalar::zero())
                });
                let base = match base {
                    Ok(Ok(b)) => b,
                    _ => {
                        out.put(&obj! {"of"=>"missed","miss"=>n,"n"=>n});
                        continue;
                    }
                };
                let mut w = vec![];
                let mut miss = 0;
                for i in 0..n {
                    // One generator for all proofs, or a fresh one for each.
                    let mut own = Rng::new(rng.next());
                    let src = if (i + k as usize) % 2 == 0 {
                        &mut rng
                    } else {
                        &mut own
                    };
                    match guard(|| create_random_proof::<Clear, _, _, _>(c.honest(), &p, src)) {
                        Ok(Ok(pf)) => w.push(vec![
                            (pf.a.0 - base.a.0) * inv(p.vk.delta_g1.0),
                            (pf.b.0 - base.b.0) * inv(p.vk.delta_g2.0),
                        ]),
                        _ => miss += 1,
                    }
                }
                rows(&mut out, "blind", &["r", "s"], &w);
                out.put(&obj! {"of"=>"missed","miss"=>miss,"n"=>n});
            }
        }
        // The weights of batch verification: a batch with one item off by one (in the
        // exponent) is finally exponentiated to that item's weight.
        "weights" => {
            let mut f = || Scalar::random(&mut rng);
            let (alpha, beta, gamma, delta) = (f(), f(), f(), f());
            let vk = VerifyingKey::<Clear> {
                alpha_g1: G1(alpha),
                beta_g1: G1(beta),
                beta_g2: G2(beta),
                gamma_g2: G2(gamma),
                delta_g1: G1(delta),
                delta_g2: G2(delta),
                ic: vec![G1(f()), G1(f())],
            };
            let item = |rng: &mut Rng, off: Scalar| {
                let (a, b, x) = (
                    Scalar::random(&mut *rng),
                    Scalar::random(&mut *rng),
                    Scalar::random(&mut *rng),
                );
                let acc = vk.ic[0].0 + vk.ic[1].0 * x;
                let c = (a * b - alpha * beta - acc * gamma - off) * inv(delta);
                (
                    Proof::<Clear> {
                        a: G1(a),
                        b: G2(b),
                        c: G1(c),
                    },
                    vec![x],
                )
            };
            for size in [1usize, 3, 9, 70] {
                for variant in 0..2 {
                    // What a batch is finally exponentiated to; item `at` is off by one.
                    let finals = |rng: &mut Rng, at: usize| {
                        let mut v = Verifier::<Clear>::new();
                        for k in 0..size {
                            let off = if k == at {
                                Scalar::one()
                            } else {
                                Scalar::zero()
                            };
                            v.queue(item(rng, off));
                        }
                        *FINALS.lock().unwrap() = Some(vec![]);
                        let r = if variant == 0 {
                            guard(|| v.verify(rng, &vk).is_ok())
                        } else {
                            multi(v, &vk, rng)
                        };
                        let f = FINALS.lock().unwrap().take().unwrap();
                        r.ok().filter(|_| !f.is_empty()).map(|_| f)
                    };
                    // Everything on one side, or compared with another.
                    let sum = |f: &Vec<Scalar>| f.iter().fold(Scalar::zero(), |a, b| a + b);
                    let good = finals(&mut rng, size);
                    let one = match &good {
                        Some(f) if sum(f) == Scalar::zero() => true,
                        Some(f) if f.len() == 2 && f[0] == f[1] => false,
                        _ => {
                            out.put(&obj! {"of"=>"unread weights","size"=>size});
                            continue;
                        }
                    };
                    let m = size.min(3);
                    let mut w = vec![];
                    for _ in 0..n {
                        let row: Vec<_> = (0..m)
                            .filter_map(|i| finals(&mut rng, i * (size - 1) / (m - 1).max(1)))
                            .filter(|f| one || f.len() == 2)
                            .map(|f| if one { sum(&f) } else { f[0] - f[1] })
                            .collect();
                        if row.len() == m {
                            w.push(row);
                        }
                    }
                    rows(
                        &mut out,
                        if variant == 0 {
                            "weights"
                        } else {
                            "weights of the parallel verifier"
                        },
                        &["z0", "z1", "z2"][..m],
                        &w,
                    );
                }
            }
        }
        // Honest and dishonest provers at full size.
        "prove" | "cheat" => {
            let mut dims = vec![
                (0usize, 1usize, 0usize),
                (1, 1, 1),
                (2, 5, 2),
                (3, 30, 4),
                (1, 31, 1),
                (2, 32, 3),
                (5, 33, 9),
                (4, 60, 4),
                (33, 40, 2),
                (2, 130, 7),
                (60, 200, 3),
                (1, 400, 120),
                (3, 1021, 3),
                (1, 5000, 2),
                (200, 2500, 1500),
                (2, 4090, 4),
            ];
            if mode == "prove" {
                dims.extend([(8, 9000, 10), (2, 33000, 3), (1, 66000, 70)]);
            }
            if thorough() {
                dims.extend([
                    (1, 30000, 2),
                    (2000, 2500, 15000),
                    (2, 140000, 4),
                    (3, 263000, 10),
                ]);
            }
            for (k, (i, a, m)) in dims.into_iter().enumerate() {
                let c = Full::new(1000 + 7 * k as u64 + seed(), i, a, m);
                let pubs = c.values().0[1..].to_vec();
                let p = match params(&c, &mut rng) {
                    Some(p) => p,
                    None => {
                        out.put(&obj! {"of"=>"prove","inputs"=>i,"aux"=>a,"res"=>vec!["no parameters"],"bad"=>Vec::<String>::new()});
                        continue;
                    }
                };
                let mut res = vec![];
                let mut bad = vec![];
                if mode == "prove" {
                    for t in 0..3 {
                        let pf = guard(|| match t {
                            0 => create_proof(c.honest(), &p, Scalar::zero(), -Scalar::one()),
                            1 => create_proof(c.honest(), &p, -Scalar::one(), Scalar::zero()),
                            _ => create_random_proof(c.honest(), &p, &mut rng),
                        });
                        res.push(verdict(&p.vk, &pf, &pubs));
                    }
                } else {
                    // A constraint that fails: one wrong variable.
                    for at in [0, a / 2, a - 1] {
                        let pf = guard(|| create_random_proof(c.cheat(at), &p, &mut rng));
                        bad.push(verdict(&p.vk, &pf, &pubs));
                    }
                    let pf = guard(|| create_random_proof(c.honest(), &p, &mut rng));
                    res.push(verdict(&p.vk, &pf, &pubs));
                    if let Ok(Ok(pf)) = pf {
                        // Off in one bit of one element, or of one input.
                        let two = |n: u64| Scalar::from(2).pow_vartime(&[n, 0, 0, 0]);
                        for bit in [0u64, 63, 64, 127, 128, 191, 192, 253, 254] {
                            for e in 0..3 {
                                let mut q = pf.clone();
                                match e {
                                    0 => q.a.0 += two(bit),
                                    1 => q.b.0 += two(bit),
                                    _ => q.c.0 += two(bit),
                                }
                                bad.push(verdict(&p.vk, &Ok(Ok(q)), &pubs));
                            }
                            for x in [0, pubs.len() / 2, pubs.len().saturating_sub(1)] {
                                if x < pubs.len() {
                                    let mut q = pubs.clone();
                                    q[x] += two(bit);
                                    bad.push(verdict(&p.vk, &Ok(Ok(pf.clone())), &q));
                                }
                            }
                        }
                    }
                }
                out.put(&obj! {"of"=>"prove","inputs"=>i,"aux"=>a,"res"=>res,"bad"=>bad});
            }
        }
        m => panic!("harness: {}", m),
    }
}

#[cfg(feature = "mc")]
fn multi(v: Verifier<Clear>, vk: &VerifyingKey<Clear>, _: &mut Rng) -> Result<bool, String> {
    guard(|| v.verify_multicore(vk).is_ok())
}
#[cfg(not(feature = "mc"))]
fn multi(v: Verifier<Clear>, vk: &VerifyingKey<Clear>, rng: &mut Rng) -> Result<bool, String> {
    guard(|| v.verify(rng, vk).is_ok())
}
