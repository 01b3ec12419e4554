//! Proof creation with unusable parameters (C05).
use bellman::multiexp::{Source, SourceBuilder};
use bellman::SynthesisError;
use conf::circ::*;
use conf::g16::*;
use conf::rng::Rng;
use conf::toy::*;
use conf::util::*;
use conf::{json, obj, J};
use ff::PrimeField;
use groth16::*;
use group::prime::PrimeCurveAffine;
use std::io;
use std::sync::Arc;
use std::time::Duration;

const P: u64 = 40961;

/// A source that fails when its element `fail` is wanted, and may be slow.
#[derive(Clone)]
struct Strm<G> {
    v: Arc<Vec<G>>,
    at: usize,
    pos: usize,
    fail: i64,
    slow: bool,
}
impl<G: PrimeCurveAffine> SourceBuilder<G> for Strm<G> {
    type Source = Strm<G>;
    fn build(self) -> Self {
        if self.slow {
            std::thread::sleep(Duration::from_millis(3));
        }
        self
    }
}
fn eof() -> SynthesisError {
    io::Error::new(io::ErrorKind::UnexpectedEof, "short").into()
}
fn other() -> SynthesisError {
    io::Error::new(io::ErrorKind::Other, "bad sector").into()
}
impl<G: PrimeCurveAffine> Source<G> for Strm<G> {
    fn next(&mut self) -> Result<&G, SynthesisError> {
        if self.fail == self.pos as i64 {
            return Err(other());
        }
        let k = self.at + self.pos;
        if k >= self.v.len() {
            return Err(eof());
        }
        if bool::from(self.v[k].is_identity()) {
            return Err(SynthesisError::UnexpectedIdentity);
        }
        self.pos += 1;
        Ok(&self.v[k])
    }
    fn skip(&mut self, amt: usize) -> Result<(), SynthesisError> {
        for _ in 0..amt {
            if self.fail == self.pos as i64 {
                return Err(other());
            }
            if self.at + self.pos >= self.v.len() {
                return Err(eof());
            }
            self.pos += 1;
        }
        Ok(())
    }
}

fn mk_err(k: &str) -> SynthesisError {
    match k {
        "AssignmentMissing" => SynthesisError::AssignmentMissing,
        "DivisionByZero" => SynthesisError::DivisionByZero,
        "Unsatisfiable" => SynthesisError::Unsatisfiable,
        "PolynomialDegreeTooLarge" => SynthesisError::PolynomialDegreeTooLarge,
        "UnexpectedIdentity" => SynthesisError::UnexpectedIdentity,
        "UnconstrainedVariable" => SynthesisError::UnconstrainedVariable,
        "IoOther" => other(),
        "IoEof" => eof(),
        k => panic!("harness: {}", k),
    }
}

#[derive(Clone)]
struct Own {
    p: Parameters<Toy<P>>,
    qerr: Vec<(String, String)>,
    fail: Vec<i64>,
    slow: bool,
}
impl Own {
    fn q(&self, w: &str) -> Result<(), SynthesisError> {
        match self.qerr.iter().find(|x| x.0 == w) {
            Some(x) => Err(mk_err(&x.1)),
            None => Ok(()),
        }
    }
    fn s<G: Clone>(&self, v: &Arc<Vec<G>>, at: usize, k: usize) -> Strm<G> {
        Strm {
            v: v.clone(),
            at,
            pos: 0,
            fail: self.fail[k],
            slow: self.slow,
        }
    }
}
impl ParameterSource<Toy<P>> for Own {
    type G1Builder = Strm<G1<P>>;
    type G2Builder = Strm<G2<P>>;
    fn get_vk(&mut self, _: usize) -> Result<VerifyingKey<Toy<P>>, SynthesisError> {
        self.q("vk")?;
        Ok(self.p.vk.clone())
    }
    fn get_h(&mut self, _: usize) -> Result<Self::G1Builder, SynthesisError> {
        self.q("h")?;
        Ok(self.s(&self.p.h, 0, 0))
    }
    fn get_l(&mut self, _: usize) -> Result<Self::G1Builder, SynthesisError> {
        self.q("l")?;
        Ok(self.s(&self.p.l, 0, 1))
    }
    fn get_a(
        &mut self,
        i: usize,
        _: usize,
    ) -> Result<(Self::G1Builder, Self::G1Builder), SynthesisError> {
        self.q("a")?;
        Ok((self.s(&self.p.a, 0, 2), self.s(&self.p.a, i, 3)))
    }
    fn get_b_g1(
        &mut self,
        i: usize,
        _: usize,
    ) -> Result<(Self::G1Builder, Self::G1Builder), SynthesisError> {
        self.q("b1")?;
        Ok((self.s(&self.p.b_g1, 0, 4), self.s(&self.p.b_g1, i, 5)))
    }
    fn get_b_g2(
        &mut self,
        i: usize,
        _: usize,
    ) -> Result<(Self::G2Builder, Self::G2Builder), SynthesisError> {
        self.q("b2")?;
        Ok((self.s(&self.p.b_g2, 0, 6), self.s(&self.p.b_g2, i, 7)))
    }
}

fn at(c: &str, n: usize) -> usize {
    match c {
        "0" => 0,
        "1" => 1,
        "half" => n / 2,
        _ => n.saturating_sub(1),
    }
}
fn hurt<G: Clone + PrimeCurveAffine>(v: &mut Arc<Vec<G>>, kind: &str, c: &str) {
    let v = Arc::make_mut(v);
    let n = v.len();
    match kind {
        "cut" => v.truncate(at(c, n)),
        "more" => v.extend(std::iter::repeat(G::generator()).take(3)),
        _ if c == "all" => v.iter_mut().for_each(|x| *x = G::identity()),
        _ => {
            if at(c, n) < n {
                v[at(c, n)] = G::identity()
            }
        }
    }
}

#[derive(Clone)]
struct Job {
    prog: Prog,
    own: Own,
    std: bool,
    r: u64,
    s: u64,
}

fn job(
    prog: &Prog,
    good: &Parameters<Toy<P>>,
    foreign: &Parameters<Toy<P>>,
    plan: &J,
    rng: &mut Rng,
) -> Job {
    let fs: Vec<(String, String, String)> = plan
        .arr()
        .iter()
        .map(|f| {
            let f = f.arr();
            (
                f[0].str().to_string(),
                f[1].str().to_string(),
                f[2].str().to_string(),
            )
        })
        .collect();
    let mut own = Own {
        p: good.clone(),
        qerr: vec![],
        fail: vec![-1; 8],
        slow: rng.below(6) == 0,
    };
    if fs.iter().any(|f| f.0 == "foreign") {
        own.p = foreign.clone();
    }
    let mut std = rng.coin() && !own.slow;
    for (k, w, c) in &fs {
        match k.as_str() {
            "qerr" => {
                own.qerr.push((w.clone(), c.clone()));
                std = false;
            }
            "strm" => {
                let i: usize = w.parse().unwrap();
                let n = match i {
                    0 => own.p.h.len(),
                    1 => own.p.l.len(),
                    2 => prog.inputs().len(),
                    3 => own.p.a.len().saturating_sub(prog.inputs().len()),
                    _ => own.p.b_g1.len() / 2,
                };
                own.fail[i] = at(c, n) as i64;
                std = false;
            }
            "key" => {
                let v = &mut own.p.vk;
                match w.as_str() {
                    "alpha1" => v.alpha_g1 = G1(0),
                    "beta1" => v.beta_g1 = G1(0),
                    "beta2" => v.beta_g2 = G2(0),
                    "delta1" => v.delta_g1 = G1(0),
                    _ => v.delta_g2 = G2(0),
                }
            }
            "cut" | "id" | "more" => match w.as_str() {
                "h" => hurt(&mut own.p.h, k, c),
                "l" => hurt(&mut own.p.l, k, c),
                "a" => hurt(&mut own.p.a, k, c),
                "b1" => hurt(&mut own.p.b_g1, k, c),
                _ => hurt(&mut own.p.b_g2, k, c),
            },
            _ => {}
        }
    }
    // A proof without blinding is as good a check of the key's elements.
    let bare = rng.below(if fs.iter().any(|f| f.0 == "key") { 2 } else { 8 }) == 0;
    let mut blind = || {
        if bare || rng.below(5) == 0 {
            0
        } else {
            rng.below(P)
        }
    };
    let (r, s) = (blind(), blind());
    Job {
        prog: prog.clone(),
        own,
        std,
        r,
        s,
    }
}

fn go(j: Job) -> Result<Proof<Toy<P>>, SynthesisError> {
    let (r, s) = (Fp::<P>(j.r), Fp::<P>(j.s));
    if j.std {
        create_proof::<Toy<P>, _, _>(Run::honest(&j.prog), &j.own.p, r, s)
    } else {
        create_proof::<Toy<P>, _, _>(Run::honest(&j.prog), j.own, r, s)
    }
}
fn record(
    j: &Job,
    res: Result<Result<Result<Proof<Toy<P>>, SynthesisError>, String>, &'static str>,
) -> J {
    let p = &j.own.p;
    let mut e = obj! {"p"=>P,"g"=>Fp::<P>::MULTIPLICATIVE_GENERATOR,"ops"=>j.prog.json(),
    "inp"=>j.prog.inputs(),"aux"=>j.prog.aux(),"r"=>j.r,"s"=>j.s,
    "qerr"=>j.own.qerr.iter().map(|x| x.1.clone()).collect::<Vec<_>>(),"sfail"=>j.own.fail.clone(),
    "key"=>obj!{"alpha_g1"=>p.vk.alpha_g1,"beta_g1"=>p.vk.beta_g1,"beta_g2"=>p.vk.beta_g2,"delta_g1"=>p.vk.delta_g1,
        "delta_g2"=>p.vk.delta_g2,"h"=>p.h.to_vec(),"l"=>p.l.to_vec(),"a"=>p.a.to_vec(),"b_g1"=>p.b_g1.to_vec(),"b_g2"=>p.b_g2.to_vec()}};
    match res {
        Err(_) => e.push("res", "hang"),
        Ok(Err(_)) => e.push("res", "panic"),
        Ok(Ok(Err(x))) => e.push("res", err_name(&x)),
        Ok(Ok(Ok(pf))) => {
            e.push("res", "ok");
            e.push("pf", jpf(&pf));
        }
    }
    e
}

fn main() {
    quiet_panics();
    let mut out = Out::new(&arg(2));
    let (part, parts): (usize, usize) = (arg(4).parse().unwrap(), arg(5).parse().unwrap());
    let mut rng = Rng::new(seed() * 131 + part as u64);
    let mut make = |rng: &mut Rng, big: bool| loop {
        let (i, a, c) = if big {
            let long = [34, 34, 66, 7, 130][rng.below(5) as usize];
            let wide = [2, 2, 36][rng.below(3) as usize];
            (wide, long, 12 + rng.below(30) as usize)
        } else {
            (
                rng.below(4) as usize,
                rng.below(6) as usize,
                rng.below(8) as usize,
            )
        };
        let prog = Prog::random(rng, P, i, a, c);
        if let Ok(p) = generate::<P>(&prog, &Tox::random(rng, P)) {
            return (prog, p);
        }
    };
    let plans = json::read_lines(&arg(3));
    let mut hangs = 0;
    let (mut prog, mut good) = make(&mut rng, false);
    let mut pending: Vec<Job> = vec![];
    for (i, plan) in plans.iter().enumerate() {
        if i % parts != part {
            continue;
        }
        if (i / parts) % 7 == 0 {
            let x = make(&mut rng, i / parts % 70 == 0);
            prog = x.0;
            good = x.1;
        }
        let (mut other, mut foreign) = make(&mut rng, false);
        if rng.coin() {
            std::mem::swap(&mut prog, &mut other);
            std::mem::swap(&mut good, &mut foreign);
        }
        let j = job(&prog, &good, &foreign, plan, &mut rng);
        if i / parts % 3 == 0 {
            pending.push(j);
            if pending.len() < 4 {
                continue;
            }
            // Several provers at once, whose background jobs share the pool.
            pending.push(job(&prog, &good, &foreign, &J::Arr(vec![]), &mut rng));
            let hs: Vec<_> = pending
                .drain(..)
                .map(|j| {
                    std::thread::spawn(move || {
                        let j2 = j.clone();
                        let r = timed(30, move || go(j2));
                        (j, r)
                    })
                })
                .collect();
            for h in hs {
                let (j, r) = h.join().unwrap_or_else(|_| panic!("harness: join"));
                hangs += r.is_err() as usize;
                out.put(&record(&j, r));
            }
        } else {
            let j2 = j.clone();
            let r = timed(30, move || go(j2));
            hangs += r.is_err() as usize;
            out.put(&record(&j, r));
            if i / parts % 5 == 0 {
                // And afterwards all is well.
                let j = job(&prog, &good, &foreign, &J::Arr(vec![]), &mut rng);
                let j2 = j.clone();
                let r = timed(30, move || go(j2));
                hangs += r.is_err() as usize;
                out.put(&record(&j, r));
            }
        }
        if hangs > 2 {
            break;
        }
    }
}
