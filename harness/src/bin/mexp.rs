//! Multi-exponentiation (C09, C10).
use bellman::multicore::Worker;
use bellman::multiexp::*;
use bellman::SynthesisError;
use conf::rng::Rng;
use conf::toy::*;
use conf::util::*;
use conf::zq::*;
use conf::{json, obj, J};
use ff::{Field, PrimeField, PrimeFieldBits};
use group::prime::PrimeCurve;
use std::io;
use std::sync::Arc;

const GOLD: u64 = 0xffff_ffff_0000_0001;

/// How the harness sees a group and its scalars.
trait World: 'static {
    type G: PrimeCurve<Scalar = Self::S, Affine = Self::A>;
    type A: group::prime::PrimeCurveAffine<Curve = Self::G, Scalar = Self::S> + 'static;
    type S: PrimeField + PrimeFieldBits;
    const ORDER: u64;
    fn point(v: u64) -> Self::A;
    fn val(g: &Self::G) -> u64;
}
struct Small<const P: u64>;
impl<const P: u64> World for Small<P> {
    type G = G1<P>;
    type A = G1<P>;
    type S = Fp<P>;
    const ORDER: u64 = P;
    fn point(v: u64) -> G1<P> {
        G1(v % P)
    }
    fn val(g: &G1<P>) -> u64 {
        g.0
    }
}
struct Large<S>(std::marker::PhantomData<S>);
impl<S: PrimeField + PrimeFieldBits> World for Large<S> {
    type G = Zq<S>;
    type A = Zq<S>;
    type S = S;
    const ORDER: u64 = Q;
    fn point(v: u64) -> Zq<S> {
        zq(v)
    }
    fn val(g: &Zq<S>) -> u64 {
        g.0
    }
}

fn bytes<S: PrimeField>(s: &S) -> Vec<u64> {
    let r = s.to_repr();
    let mut v: Vec<u64> = r.as_ref().iter().map(|b| *b as u64).collect();
    while v.last() == Some(&0) {
        v.pop();
    }
    v
}
fn scalar<S: PrimeField>(rng: &mut Rng) -> S {
    match rng.below(10) {
        0 => S::ZERO,
        1 => S::ONE,
        2 => -S::ONE,
        3 => S::from(2 + rng.below(14)),
        4 => {
            // a power of two, or just below one
            let mut x = S::ONE;
            for _ in 0..rng.below(S::NUM_BITS as u64) {
                x = x.double();
            }
            if rng.coin() {
                x - S::ONE
            } else {
                x
            }
        }
        5 => S::ZERO - S::from(rng.below(5)),
        _ => S::random(rng),
    }
}

#[derive(Clone)]
struct Faulty<A> {
    v: Arc<Vec<A>>,
    at: usize,
    fail: usize,
}
impl<A: group::prime::PrimeCurveAffine + 'static> SourceBuilder<A> for Faulty<A> {
    type Source = Self;
    fn build(self) -> Self {
        self
    }
}
impl<A: group::prime::PrimeCurveAffine> Source<A> for Faulty<A> {
    fn next(&mut self) -> Result<&A, SynthesisError> {
        if self.at == self.fail {
            return Err(io::Error::new(io::ErrorKind::Other, "injected").into());
        }
        self.at += 1;
        Ok(&self.v[self.at - 1])
    }
    fn skip(&mut self, n: usize) -> Result<(), SynthesisError> {
        if self.at <= self.fail && self.fail < self.at + n {
            return Err(io::Error::new(io::ErrorKind::Other, "injected").into());
        }
        self.at += n;
        Ok(())
    }
}

struct Case<S> {
    bases: Vec<u64>,
    start: usize,
    exps: Vec<S>,
    dens: Option<Vec<bool>>,
    fail: Option<usize>,
}

fn run<W: World>(c: &Case<W::S>) -> J {
    let exps: Arc<Vec<Exponent<W::S>>> = Arc::new(c.exps.iter().map(|e| e.into()).collect());
    let bases = Arc::new(c.bases.iter().map(|b| W::point(*b)).collect::<Vec<_>>());
    let dens = c.dens.clone();
    let start = c.start;
    let fail = c.fail;
    let mut tracker = DensityTracker::new();
    if let Some(d) = &dens {
        for _ in d {
            tracker.add_element();
        }
        for (i, b) in d.iter().enumerate() {
            if *b {
                tracker.inc(i);
                if i % 3 == 0 {
                    tracker.inc(i);
                }
            }
        }
    }
    let total = tracker.get_total_density();
    let has = dens.is_some();
    let r = timed(60, move || -> Result<W::G, SynthesisError> {
        let worker = Worker::new();
        match (fail, has) {
            (None, false) => multiexp(&worker, (bases, start), FullDensity, exps).wait(),
            (None, true) => multiexp(&worker, (bases, start), Arc::new(tracker), exps).wait(),
            (Some(k), false) => multiexp(
                &worker,
                Faulty {
                    v: bases,
                    at: start,
                    fail: k,
                },
                FullDensity,
                exps,
            )
            .wait(),
            (Some(k), true) => multiexp(
                &worker,
                Faulty {
                    v: bases,
                    at: start,
                    fail: k,
                },
                Arc::new(tracker),
                exps,
            )
            .wait(),
        }
    });
    let (res, out) = match r {
        Ok(Ok(Ok(g))) => ("ok".to_string(), W::val(&g)),
        Ok(Ok(Err(e))) => (err_name(&e).to_string(), 0),
        Ok(Err(m)) => (format!("panic {}", m), 0),
        Err(h) => (h.to_string(), 0),
    };
    let mut j = obj! {"q"=>W::ORDER,"start"=>start,"bases"=>c.bases.clone(),
    "exps"=>c.exps.iter().map(bytes::<W::S>).map(J::from).collect::<Vec<J>>(),
    "full"=>!has,"dens"=>dens.clone().unwrap_or_default().iter().map(|b| J::from(*b)).collect::<Vec<J>>(),
    "total"=>total,"res"=>res,"out"=>out};
    j.push("fail", fail.map(|x| x as i64).unwrap_or(-1));
    j
}

fn good<W: World>(n: usize, full: bool, rng: &mut Rng) -> Case<W::S> {
    let dens: Option<Vec<bool>> = if full {
        None
    } else {
        let k = 1 + rng.below(4);
        Some((0..n).map(|_| rng.below(4) < k).collect())
    };
    let exps: Vec<W::S> = (0..n).map(|_| scalar(rng)).collect();
    let used = dens
        .as_ref()
        .map(|d| d.iter().filter(|b| **b).count())
        .unwrap_or(n);
    let start = if rng.coin() { 0 } else { rng.below(5) as usize };
    let extra = rng.below(3) as usize;
    let bases = (0..start + used + extra)
        .map(|_| 1 + rng.below(W::ORDER - 1))
        .collect();
    Case {
        bases,
        start,
        exps,
        dens,
        fail: None,
    }
}
/// Identity bases exactly where the exponents are zero.
fn zeros<W: World>(c: &mut Case<W::S>) {
    let mut k = c.start;
    for i in 0..c.exps.len() {
        if c.dens.as_ref().map_or(true, |d| d[i]) {
            if bool::from(c.exps[i].is_zero()) {
                c.bases[k] = 0;
            }
            k += 1;
        }
    }
}

fn values<W: World>(lens: &[usize], rng: &mut Rng, out: &mut Out) {
    for n in lens {
        for full in [true, false] {
            let mut c = good::<W>(*n, full, rng);
            if rng.coin() {
                zeros::<W>(&mut c);
            }
            out.put(&run::<W>(&c));
        }
    }
    // All exponents alike.
    for n in lens.iter().filter(|n| **n < 60) {
        for e in [W::S::ZERO, W::S::ONE, -W::S::ONE, W::S::from(7)] {
            let mut c = good::<W>(*n, true, rng);
            c.exps = vec![e; *n];
            out.put(&run::<W>(&c));
        }
    }
}

fn faults<W: World>(n: usize, rng: &mut Rng, out: &mut Out) {
    let mut c = good::<W>(n, rng.coin(), rng);
    match rng.below(5) {
        // Truncated anywhere.
        0 | 1 => {
            let k = rng.below(c.bases.len() as u64 + 1) as usize;
            c.bases.truncate(k);
        }
        // Identities anywhere.
        2 => {
            for _ in 0..1 + rng.below(3) {
                if !c.bases.is_empty() {
                    let k = rng.below(c.bases.len() as u64) as usize;
                    c.bases[k] = 0;
                }
            }
        }
        3 => {
            zeros::<W>(&mut c);
            if rng.coin() && !c.bases.is_empty() {
                let k = rng.below(c.bases.len() as u64) as usize;
                c.bases[k] = 0;
            }
            if rng.below(4) == 0 {
                let k = c.bases.len();
                c.bases.truncate(k - k.min(1));
            }
        }
        // A source of the caller's own that fails.
        _ => c.fail = Some(rng.below(c.bases.len() as u64 + 2) as usize),
    }
    out.put(&run::<W>(&c));
}

fn main() {
    quiet_panics();
    let mode = arg(1);
    let mut out = Out::new(&arg(2));
    let mut rng = Rng::new(seed() * 131 + mode.len() as u64);
    type Bls = bls12_381::Scalar;
    match mode.as_str() {
        "values" => {
            let short: Vec<usize> = (0..20).chain([30, 31, 32, 33, 53, 54, 55, 56]).collect();
            let mut long = vec![147, 148, 149, 150, 403, 404, 1096, 1097];
            if thorough() {
                long.extend([2980, 2981, 8103, 8104]);
            }
            for _ in 0..tier(2, 10) {
                values::<Large<Bls>>(&short, &mut rng, &mut out);
                values::<Large<Fp<GOLD>>>(&short, &mut rng, &mut out);
                values::<Small<40961>>(&short, &mut rng, &mut out);
                values::<Small<12289>>(&short, &mut rng, &mut out);
                values::<Small<7681>>(&short, &mut rng, &mut out);
                values::<Small<257>>(&short, &mut rng, &mut out);
                values::<Small<97>>(&short, &mut rng, &mut out);
                values::<Small<17>>(&short, &mut rng, &mut out);
                values::<Small<3>>(&short, &mut rng, &mut out);
            }
            values::<Large<Bls>>(&long, &mut rng, &mut out);
            values::<Large<Fp<GOLD>>>(&long, &mut rng, &mut out);
            values::<Small<40961>>(&long, &mut rng, &mut out);
            values::<Small<257>>(&long, &mut rng, &mut out);
        }
        // Every window width up to thirteen bits.
        "wide" => {
            let lens = [2980, 2981, 8103, 8104, 22026, 22027, 59874, 59875, 162755];
            for n in &lens[..tier(8, 9)] {
                values::<Small<40961>>(&[*n], &mut rng, &mut out);
                if *n < 9000 {
                    values::<Large<Fp<GOLD>>>(&[*n], &mut rng, &mut out);
                    values::<Large<Bls>>(&[*n], &mut rng, &mut out);
                }
            }
        }
        "faults" => {
            for k in 0..tier(400, 4000) {
                let n = match rng.below(4) {
                    0 => rng.below(4),
                    1 => rng.below(12),
                    2 => 30 + rng.below(30),
                    _ => rng.below(8),
                } as usize;
                match k % 4 {
                    0 => faults::<Large<Fp<GOLD>>>(n, &mut rng, &mut out),
                    3 => faults::<Large<Bls>>(n, &mut rng, &mut out),
                    1 => faults::<Small<40961>>(n, &mut rng, &mut out),
                    _ => faults::<Small<17>>(n, &mut rng, &mut out),
                }
            }
        }
        // Small cases made by the specification: every pattern of exponents,
        // densities, bases and offsets.
        "gen" => {
            let (part, parts): (usize, usize) = (arg(4).parse().unwrap(), arg(5).parse().unwrap());
            for (i, j) in json::read_lines(&arg(3)).iter().enumerate() {
                if i % parts != part {
                    continue;
                }
                let full = j.get("full").boolean();
                let c = Case {
                    bases: j.get("bases").arr().iter().map(|x| x.us() as u64).collect(),
                    start: j.get("start").us(),
                    exps: j
                        .get("exps")
                        .arr()
                        .iter()
                        .map(|x| Fp::<17>(x.us() as u64))
                        .collect(),
                    dens: if full {
                        None
                    } else {
                        Some(j.get("dens").arr().iter().map(|x| x.boolean()).collect())
                    },
                    fail: None,
                };
                out.put(&run::<Small<17>>(&c));
            }
        }
        // Histories of sources and of density trackers.
        "hist" => {
            for _ in 0..tier(300, 3000) {
                let n = rng.below(9) as usize;
                let start = rng.below(n as u64 + 2) as usize;
                let bases: Vec<u64> = (0..n)
                    .map(|_| {
                        if rng.below(5) == 0 {
                            0
                        } else {
                            1 + rng.below(40000)
                        }
                    })
                    .collect();
                let mut src = (
                    Arc::new(bases.iter().map(|b| G1::<40961>(*b)).collect::<Vec<_>>()),
                    start,
                )
                    .build();
                let mut ev = vec![];
                for _ in 0..8 {
                    if rng.below(3) > 0 {
                        let (res, out) = match guard(|| Source::next(&mut src).map(|g| g.0)) {
                            Ok(Ok(v)) => ("ok".to_string(), v),
                            Ok(Err(e)) => (err_name(&e).to_string(), 0),
                            Err(m) => (format!("panic {}", m), 0),
                        };
                        let stop = res != "ok";
                        ev.push(obj! {"e"=>"next","res"=>res,"out"=>out});
                        if stop && rng.coin() {
                            break;
                        }
                    } else {
                        let k = 1 + rng.below(3) as usize;
                        let res = match guard(|| Source::skip(&mut src, k)) {
                            Ok(Ok(())) => "ok".to_string(),
                            Ok(Err(e)) => err_name(&e).to_string(),
                            Err(m) => format!("panic {}", m),
                        };
                        ev.push(obj! {"e"=>"skip","n"=>k,"res"=>res});
                    }
                }
                out.put(&obj! {"bases"=>bases,"start"=>start,"ev"=>ev});
            }
            for k in 0..tier(200, 2000) {
                let mut d = if k % 2 == 0 {
                    DensityTracker::new()
                } else {
                    DensityTracker::default()
                };
                let mut n = 0;
                let mut ev = vec![];
                let add = 1 + rng.below(4);
                for _ in 0..rng.below(if k % 10 == 0 { 300 } else { 30 }) {
                    if n == 0 || rng.below(5) < add {
                        d.add_element();
                        n += 1;
                        ev.push(obj! {"e"=>"add"});
                    } else {
                        let i = rng.below(n as u64) as usize;
                        d.inc(i);
                        ev.push(obj! {"e"=>"inc","i"=>i});
                    }
                    if rng.below(4) == 0 {
                        ev.push(obj! {"e"=>"total","out"=>d.get_total_density()});
                    }
                }
                ev.push(obj! {"e"=>"total","out"=>d.get_total_density()});
                ev.push(
                    obj! {"e"=>"map","size"=>(&d).get_query_size().map(|x| x as i64).unwrap_or(-1),
                    "out"=>(&d).iter().map(J::from).collect::<Vec<_>>()},
                );
                let f: Vec<J> = (&FullDensity).iter().take(5).map(J::from).collect();
                ev.push(obj! {"e"=>"fullmap","size"=>(&FullDensity).get_query_size().map(|x| x as i64).unwrap_or(-1),"out"=>f});
                out.put(&obj! {"bases"=>Vec::<u64>::new(),"start"=>0,"ev"=>ev});
            }
        }
        m => panic!("harness: mode {}", m),
    }
}
