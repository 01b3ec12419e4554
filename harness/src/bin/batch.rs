//! Batch verification (C06).
use conf::g16::*;
use conf::rng::*;
use conf::toy::*;
use conf::util::*;
use conf::{obj, J};
use ff::Field;
use groth16::batch::*;
use groth16::*;
use std::sync::Arc;

const GOLD: u64 = 0xffff_ffff_0000_0001;

#[derive(Clone)]
struct It<const P: u64> {
    pf: Proof<Toy<P>>,
    pubs: Vec<u64>,
}
fn key<const P: u64>(rng: &mut Rng, n: usize) -> VerifyingKey<Toy<P>> {
    let mut f = || 1 + rng.below(P - 1);
    VerifyingKey {
        alpha_g1: G1(f()),
        beta_g1: G1(f()),
        beta_g2: G2(f()),
        gamma_g2: G2(f()),
        delta_g1: G1(f()),
        delta_g2: G2(f()),
        ic: (0..=n).map(|_| G1(f())).collect(),
    }
}
/// An item whose verification equation is off by `e`; `how` says in what place.
fn item<const P: u64>(rng: &mut Rng, vk: &VerifyingKey<Toy<P>>, e: Fp<P>, how: u64) -> It<P> {
    let f = |x: u64| Fp::<P>::new(x);
    loop {
        let n = vk.ic.len() - 1;
        let mut pubs: Vec<u64> = (0..n)
            .map(|_| {
                if rng.below(5) == 0 {
                    rng.below(2)
                } else {
                    rng.below(P)
                }
            })
            .collect();
        let (mut a, mut b) = (f(rng.below(P)), f(rng.below(P)));
        let x = pubs
            .iter()
            .zip(&vk.ic[1..])
            .fold(f(vk.ic[0].0), |s, (p, q)| s + f(*p) * f(q.0));
        let mut c = (a * b - f(vk.alpha_g1.0) * f(vk.beta_g2.0) - x * f(vk.gamma_g2.0))
            * f(vk.delta_g2.0).invert().unwrap();
        if e != Fp(0) {
            match how % 4 {
                0 => c -= e * f(vk.delta_g2.0).invert().unwrap(),
                1 if n > 0 => {
                    let k = rng.below(n as u64) as usize;
                    let d = e * (f(vk.ic[k + 1].0) * f(vk.gamma_g2.0)).invert().unwrap();
                    pubs[k] = (f(pubs[k]) - d).0;
                }
                2 if b != Fp(0) => a += e * b.invert().unwrap(),
                3 if a != Fp(0) => b += e * a.invert().unwrap(),
                3 => continue,
                2 => continue,
                _ => c -= e * f(vk.delta_g2.0).invert().unwrap(),
            }
        }
        return It {
            pf: Proof {
                a: G1(a.0),
                b: G2(b.0),
                c: G1(c.0),
            },
            pubs,
        };
    }
}
fn queue<const P: u64>(items: &[It<P>]) -> Verifier<Toy<P>> {
    let mut v = Verifier::new();
    for (i, x) in items.iter().enumerate() {
        let pubs: Vec<Fp<P>> = x.pubs.iter().map(|y| Fp::new(*y)).collect();
        if i % 2 == 0 {
            v.queue((&x.pf, &pubs[..]));
        } else {
            v.queue((x.pf.clone(), pubs));
        }
    }
    v
}
fn name(r: Result<Result<Result<(), bellman::VerificationError>, String>, &'static str>) -> String {
    match r {
        Err(_) => "hang".into(),
        Ok(Err(_)) => "panic".into(),
        Ok(Ok(Ok(()))) => "ok".into(),
        Ok(Ok(Err(e))) => verr_name(&e).into(),
    }
}
fn single<const P: u64>(vk: &VerifyingKey<Toy<P>>, x: &It<P>) -> String {
    let i: Item<Toy<P>> = (
        x.pf.clone(),
        x.pubs.iter().map(|y| Fp::new(*y)).collect::<Vec<_>>(),
    )
        .into();
    let vk = vk.clone();
    name(timed(20, move || {
        i.clone().verify_single(&prepare_verifying_key(&vk))
    }))
}
fn seq<const P: u64, R: rand_core::RngCore + rand_core::CryptoRng + Send + 'static>(
    vk: &Arc<VerifyingKey<Toy<P>>>,
    items: &[It<P>],
    rng: R,
) -> String {
    let (vk, items) = (vk.clone(), items.to_vec());
    name(timed(20, move || queue(&items).verify(rng, &vk)))
}
#[cfg(feature = "mc")]
fn par<const P: u64>(vk: &Arc<VerifyingKey<Toy<P>>>, items: &[It<P>]) -> String {
    let (vk, items) = (vk.clone(), items.to_vec());
    name(timed(20, move || queue(&items).verify_multicore(&vk)))
}
#[cfg(not(feature = "mc"))]
fn par<const P: u64>(vk: &Arc<VerifyingKey<Toy<P>>>, items: &[It<P>]) -> String {
    seq(vk, items, Rng::new(5))
}

/// Error patterns: e[i] of each item.
fn errors<const P: u64>(rng: &mut Rng, n: usize, kind: usize) -> Vec<Fp<P>> {
    let mut e = vec![Fp::<P>(0); n];
    let x = Fp::<P>(1 + rng.below(P - 1));
    if n == 0 {
        return e;
    }
    let i = rng.below(n as u64) as usize;
    match kind {
        0 => {}
        1 => e[i] = x,
        2 => e[n - 1] = x,
        3 => e[0] = x,
        // Pairs that cancel under equal weights; neighbours, far apart, or in
        // the same place of different chunks.
        4 | 5 | 6 | 7 if n > 1 => {
            let j = match kind {
                4 => (i + 1) % n,
                5 => (i + n / 2) % n,
                6 => (i + 8) % n,
                _ => (i + 16) % n,
            };
            e[i] = x;
            if i != j {
                e[j] = -x;
            }
        }
        // Three that cancel under equal weights, and under weights 1, 2, 3.
        8 if n > 2 => {
            let y = Fp::<P>(1 + rng.below(P - 1));
            e[0] = x;
            e[1] = y;
            e[2] = -(x + y);
        }
        9 if n > 2 => {
            e[0] = x;
            e[1] = -(x + x);
            e[2] = x;
        }
        // All wrong, the sum being zero.
        10 => {
            let mut s = Fp::<P>(0);
            for k in 0..n - 1 {
                e[k] = Fp(1 + rng.below(P - 1));
                s += e[k];
            }
            e[n - 1] = -s;
        }
        11 => e.iter_mut().for_each(|v| *v = x),
        _ => e[i] = x,
    }
    e
}

fn run<const P: u64>(out: &mut Out, rng: &mut Rng, n: usize, kind: usize, seeds: usize) {
    let vk = Arc::new(key::<P>(rng, rng.clone().below(5) as usize));
    let how = rng.below(6);
    // A wrong number of inputs is the only thing wrong, but sometimes.
    let ek = if kind >= 13 && rng.below(8) > 0 {
        0
    } else {
        kind.min(12)
    };
    let e = errors::<P>(rng, n, ek);
    let mut items: Vec<It<P>> = e
        .iter()
        .map(|e| {
            let h = if how > 3 { rng.below(4) } else { how };
            let h = if how == 1 && vk.ic.len() == 1 { 0 } else { h };
            item(rng, &vk, *e, h)
        })
        .collect();
    // Wrong numbers of public inputs.
    if kind >= 13 && n > 0 {
        let k = if kind % 2 == 0 {
            0
        } else {
            rng.below(n as u64) as usize
        };
        if kind < 15 || items[k].pubs.is_empty() {
            items[k]
                .pubs
                .push(if kind == 13 { 0 } else { rng.below(P) });
        } else {
            // Missing, but right if it is taken for zero.
            let last = Fp::<P>::new(items[k].pubs.pop().unwrap());
            items[k].pf.c += G1((last
                * Fp::new(vk.ic[vk.ic.len() - 1].0)
                * Fp::new(vk.gamma_g2.0)
                * Fp::<P>::new(vk.delta_g2.0).invert().unwrap())
            .0);
        }
        if kind == 16 {
            // Consistently wrong.
            for x in items.iter_mut() {
                x.pubs.resize(vk.ic.len(), 0);
            }
        }
    }
    let singles: Vec<String> = items.iter().map(|x| single(&vk, x)).collect();
    let mut runs = vec![];
    for k in 0..seeds {
        runs.push(seq(&vk, &items, Rng::new(rng.next() ^ k as u64)));
    }
    // Generators that yield zeros, ones or always the same for a while.
    let z = rng.below(7) as usize;
    let scripted = vec![
        seq(&vk, &items, Script::new(vec![0; z])),
        seq(&vk, &items, Script::new(vec![P; 1 + z])),
        seq(
            &vk,
            &items,
            Script {
                words: vec![0],
                pos: 0,
                tail: Rng::new(rng.next()),
            },
        ),
    ];
    let pars: Vec<String> = (0..seeds).map(|_| par(&vk, &items)).collect();
    let mut c = obj! {"p"=>if P < 50000 {P} else {0},"kind"=>kind,"single"=>singles,"runs"=>runs,"scripted"=>scripted,"pars"=>pars,"n"=>n};
    if P < 50000 {
        c.push("vk", jvk(&vk));
        c.push(
            "items",
            J::Arr(
                items
                    .iter()
                    .map(|x| obj! {"pf"=>jpf(&x.pf),"pub"=>x.pubs.clone()})
                    .collect(),
            ),
        );
    }
    out.put(&c);
}

/// Many coin tosses for one cancelling pair: how many accept?
fn tosses(out: &mut Out, rng: &mut Rng, n: usize, kind: usize, m: usize) {
    let vk = Arc::new(key::<GOLD>(rng, 2));
    let e = errors::<GOLD>(rng, n, kind);
    let items: Vec<_> = e.iter().map(|e| item(rng, &vk, *e, 0)).collect();
    let bad = items.iter().filter(|x| single(&vk, x) != "ok").count();
    let (mut acc, mut pacc) = (0, 0);
    for _ in 0..m {
        let s = rng.next();
        acc += guard(|| queue(&items).verify(Rng::new(s), &vk).is_ok()).unwrap_or(true) as usize;
        #[cfg(feature = "mc")]
        {
            pacc += guard(|| queue(&items).verify_multicore(&vk).is_ok()).unwrap_or(true) as usize;
        }
        #[cfg(not(feature = "mc"))]
        {
            pacc += 0;
        }
    }
    out.put(&obj! {"bad"=>bad,"n"=>n,"acc"=>acc,"pacc"=>pacc,"m"=>m});
}

/// The weights the verifier gives its items, seen through the value that is
/// finally exponentiated: by how much an error of one in item i moves it.
fn weights(out: &mut Out, rng: &mut Rng, n: usize, seeds: usize) {
    let vk = key::<GOLD>(rng, 1);
    let good: Vec<_> = (0..n).map(|_| item(rng, &vk, Fp(0), 0)).collect();
    let total = |items: &[It<GOLD>], s: u64| -> Option<Fp<GOLD>> {
        *FINALS.lock().unwrap() = Some(vec![]);
        let r = guard(|| queue(items).verify(Rng::new(s), &vk));
        let v = FINALS.lock().unwrap().take().unwrap();
        r.ok()?;
        if v.is_empty() {
            return None;
        }
        Some(v.iter().fold(Fp(0), |a, b| a + Fp(*b)))
    };
    let mut rows = vec![];
    for _ in 0..seeds {
        let s = rng.next();
        let base = match total(&good, s) {
            Some(b) => b,
            None => return,
        };
        let mut z = vec![];
        for i in 0..n {
            let mut bad = good.clone();
            bad[i].pf.c -= G1((Fp::<GOLD>(vk.delta_g2.0).invert().unwrap()).0);
            match total(&bad, s) {
                Some(v) => z.push(v - base),
                None => return,
            }
        }
        rows.push(z);
    }
    let limb = |x: Fp<GOLD>| {
        (0..4)
            .map(|k| (x.0 >> (16 * k)) & 0xffff)
            .collect::<Vec<u64>>()
    };
    let w: Vec<J> = rows
        .iter()
        .map(|z| J::Arr(z.iter().map(|x| J::from(limb(*x))).collect()))
        .collect();
    let mut rel = vec![];
    for i in 0..n {
        for j in 0..i {
            for f in 0..3 {
                rel.push(J::Arr(
                    rows.iter()
                        .map(|z| {
                            let v = match f {
                                0 => z[i] * z[j].invert().unwrap_or(Fp(0)),
                                1 => z[i] - z[j],
                                _ => z[i] + z[j],
                            };
                            J::from(limb(v))
                        })
                        .collect(),
                ));
            }
        }
    }
    out.put(&obj! {"w"=>w,"rel"=>rel});
}

fn main() {
    quiet_panics();
    let mode = arg(1);
    let mut out = Out::new(&arg(2));
    let mut rng = Rng::new(seed() * 17 + mode.len() as u64);
    match mode.as_str() {
        "cases" => {
            let salt: u64 = arg(3).parse().unwrap();
            rng = Rng::new(seed() * 1009 + salt);
            for n in 0..tier(20, 42) {
                for kind in 0..17 {
                    if n > 6 && (n + kind) % 4 != salt as usize % 4 && !(4..8).contains(&kind) {
                        continue;
                    }
                    run::<40961>(&mut out, &mut rng, n, kind, 8);
                    if kind < 13 && (n + kind) % 3 == 0 {
                        run::<GOLD>(&mut out, &mut rng, n, kind, 8);
                    }
                }
            }
            for n in [23, 24, 25, 31, 32, 33, 40, 41, 64, 65] {
                for kind in [0, 1, 2, 3, 6, 7, 10] {
                    run::<GOLD>(&mut out, &mut rng, n, kind, 3);
                }
            }
        }
        "tosses" => {
            for (n, kind) in [
                (2, 4),
                (3, 8),
                (9, 6),
                (10, 6),
                (17, 6),
                (17, 7),
                (24, 7),
                (5, 10),
                (3, 9),
                (1, 1),
            ] {
                tosses(&mut out, &mut rng, n, kind, tier(1500, 20000));
            }
        }
        "weights" => {
            for n in [1, 2, 3, 9, 12] {
                weights(&mut out, &mut rng, n, tier(60, 200));
            }
        }
        m => panic!("harness: {}", m),
    }
}
