//! Runs the real Groth16 generator, prover and verifier on circuit programs and
//! records what they return (checked by Groth16Trace.tla).
use crate::circ::*;
use crate::rng::{Rng, Script};
use crate::toy::*;
use crate::util::*;
use crate::{obj, J};
use bellman::SynthesisError;
use ff::{Field, PrimeField};
use groth16::*;

pub struct Tox {
    pub g1: u64,
    pub g2: u64,
    pub alpha: u64,
    pub beta: u64,
    pub gamma: u64,
    pub delta: u64,
    pub tau: u64,
}
impl Tox {
    pub fn parse(j: &J) -> Tox {
        let f = |k: &str| j.get(k).int() as u64;
        Tox {
            g1: f("g1"),
            g2: f("g2"),
            alpha: f("alpha"),
            beta: f("beta"),
            gamma: f("gamma"),
            delta: f("delta"),
            tau: f("tau"),
        }
    }
    pub fn random(rng: &mut Rng, p: u64) -> Tox {
        let mut f = || 1 + rng.below(p - 1);
        Tox {
            g1: f(),
            g2: f(),
            alpha: f(),
            beta: f(),
            gamma: f(),
            delta: f(),
            tau: f(),
        }
    }
    pub fn json(&self) -> J {
        obj! {"g1"=>self.g1,"g2"=>self.g2,"alpha"=>self.alpha,"beta"=>self.beta,"gamma"=>self.gamma,"delta"=>self.delta,"tau"=>self.tau}
    }
}

/// Wraps the real parameter source and records what the prover asks of it.
pub struct Counting<'a, const P: u64> {
    pub inner: &'a Parameters<Toy<P>>,
    pub log: std::rc::Rc<std::cell::RefCell<Vec<(&'static str, usize, usize)>>>,
}
impl<'a, const P: u64> ParameterSource<Toy<P>> for Counting<'a, P> {
    type G1Builder = <&'a Parameters<Toy<P>> as ParameterSource<Toy<P>>>::G1Builder;
    type G2Builder = <&'a Parameters<Toy<P>> as ParameterSource<Toy<P>>>::G2Builder;
    fn get_vk(&mut self, n: usize) -> Result<VerifyingKey<Toy<P>>, SynthesisError> {
        self.log.borrow_mut().push(("vk", n, 0));
        self.inner.get_vk(n)
    }
    fn get_h(&mut self, n: usize) -> Result<Self::G1Builder, SynthesisError> {
        self.log.borrow_mut().push(("h", n, 0));
        self.inner.get_h(n)
    }
    fn get_l(&mut self, n: usize) -> Result<Self::G1Builder, SynthesisError> {
        self.log.borrow_mut().push(("l", n, 0));
        self.inner.get_l(n)
    }
    fn get_a(
        &mut self,
        i: usize,
        a: usize,
    ) -> Result<(Self::G1Builder, Self::G1Builder), SynthesisError> {
        self.log.borrow_mut().push(("a", i, a));
        self.inner.get_a(i, a)
    }
    fn get_b_g1(
        &mut self,
        i: usize,
        a: usize,
    ) -> Result<(Self::G1Builder, Self::G1Builder), SynthesisError> {
        self.log.borrow_mut().push(("b1", i, a));
        self.inner.get_b_g1(i, a)
    }
    fn get_b_g2(
        &mut self,
        i: usize,
        a: usize,
    ) -> Result<(Self::G2Builder, Self::G2Builder), SynthesisError> {
        self.log.borrow_mut().push(("b2", i, a));
        self.inner.get_b_g2(i, a)
    }
}

pub fn jvk<const P: u64>(v: &VerifyingKey<Toy<P>>) -> J {
    obj! {"alpha_g1"=>v.alpha_g1,"beta_g1"=>v.beta_g1,"beta_g2"=>v.beta_g2,"gamma_g2"=>v.gamma_g2,
    "delta_g1"=>v.delta_g1,"delta_g2"=>v.delta_g2,"ic"=>v.ic.clone()}
}
pub fn jpf<const P: u64>(p: &Proof<Toy<P>>) -> J {
    obj! {"a"=>p.a,"b"=>p.b,"c"=>p.c}
}

pub fn generate<const P: u64>(prog: &Prog, t: &Tox) -> Result<Parameters<Toy<P>>, String> {
    match guard(|| {
        generate_parameters::<Toy<P>, _>(
            Run::shape(prog),
            G1(t.g1),
            G2(t.g2),
            Fp(t.alpha),
            Fp(t.beta),
            Fp(t.gamma),
            Fp(t.delta),
            Fp(t.tau),
        )
    }) {
        Ok(Ok(p)) => Ok(p),
        Ok(Err(e)) => Err(err_name(&e).to_string()),
        Err(m) => Err(format!("panic: {}", m)),
    }
}

pub fn prove<const P: u64>(
    prog: &Prog,
    params: &Parameters<Toy<P>>,
    r: u64,
    s: u64,
) -> (
    Result<Proof<Toy<P>>, String>,
    Vec<(&'static str, usize, usize)>,
) {
    let log = std::rc::Rc::new(std::cell::RefCell::new(vec![]));
    let src = Counting {
        inner: params,
        log: log.clone(),
    };
    let res = match guard(|| {
        create_proof::<Toy<P>, _, _>(Run::honest(prog), src, Fp::<P>(r), Fp::<P>(s))
    }) {
        Ok(Ok(p)) => Ok(p),
        Ok(Err(e)) => Err(err_name(&e).to_string()),
        Err(m) => Err(format!("panic: {}", m)),
    };
    let l = log.borrow().clone();
    (res, l)
}

pub fn verify<const P: u64>(vk: &VerifyingKey<Toy<P>>, pf: &Proof<Toy<P>>, pubs: &[u64]) -> String {
    let pubs: Vec<Fp<P>> = pubs.iter().map(|v| Fp::new(*v)).collect();
    match guard(|| verify_proof(&prepare_verifying_key(vk), pf, &pubs)) {
        Ok(Ok(())) => "ok".into(),
        Ok(Err(e)) => verr_name(&e).to_string(),
        Err(m) => format!("panic: {}", m),
    }
}

fn prove_event<const P: u64>(
    prog: &Prog,
    params: &Parameters<Toy<P>>,
    r: u64,
    s: u64,
) -> (J, Option<Proof<Toy<P>>>) {
    let (res, log) = prove(prog, params, r, s);
    let one = |k: &str| {
        log.iter()
            .find(|x| x.0 == k)
            .map(|x| x.1 as i64)
            .unwrap_or(-1)
    };
    let two = |k: &str| match log.iter().find(|x| x.0 == k) {
        Some(x) => J::from(vec![x.1, x.2]),
        None => J::from(vec![-1, -1]),
    };
    let mut e = obj! {"e"=>"prove","inp"=>prog.inputs(),"aux"=>prog.aux(),"r"=>r,"s"=>s,
    "res"=>res.as_ref().map(|_| "ok".to_string()).unwrap_or_else(|e| e.clone()),
    "req"=>obj!{"vk"=>one("vk"),"h"=>one("h"),"l"=>one("l"),"a"=>two("a"),"b1"=>two("b1"),"b2"=>two("b2")}};
    if let Ok(p) = &res {
        e.push("pf", jpf(p));
    }
    (e, res.ok())
}

/// One program: generate, prove, and verify under a catalogue of changes.
pub fn case<const P: u64>(prog: &Prog, t: &Tox, r: u64, s: u64, rng: &mut Rng, tamper: bool) -> J {
    let mut ev = vec![];
    match generate::<P>(prog, t) {
        Err(e) => ev.push(obj! {"e"=>"gen","res"=>e}),
        Ok(params) => {
            ev.push(obj! {"e"=>"gen","res"=>"ok","vk"=>jvk(&params.vk),"h"=>params.h.to_vec(),"l"=>params.l.to_vec(),
            "a"=>params.a.to_vec(),"b_g1"=>params.b_g1.to_vec(),"b_g2"=>params.b_g2.to_vec()});
            let (e, pf) = prove_event(prog, &params, r, s);
            ev.push(e);
            let of = ev.len();
            if let Some(pf) = pf {
                let pubs: Vec<u64> = prog.inputs()[1..].to_vec();
                let mut v = |pf: &Proof<Toy<P>>,
                             pubs: &[u64],
                             vk: Option<&VerifyingKey<Toy<P>>>| {
                    let res = verify(vk.unwrap_or(&params.vk), pf, pubs);
                    let mut e = obj! {"e"=>"verify","of"=>of,"pf"=>jpf(pf),"pub"=>pubs,"res"=>res};
                    if let Some(vk) = vk {
                        e.push("vk", jvk(vk));
                    }
                    ev.push(e);
                };
                v(&pf, &pubs, None);
                if tamper {
                    for i in 0..pubs.len() {
                        let mut q = pubs.clone();
                        q[i] = (q[i] + 1 + rng.below(P - 1)) % P;
                        v(&pf, &q, None);
                    }
                    if pubs.len() > 1 {
                        let mut q = pubs.clone();
                        q.rotate_left(1);
                        v(&pf, &q, None);
                        // Errors that cancel if the inputs are all weighted alike.
                        let mut q = pubs.clone();
                        let d = 1 + rng.below(P - 1);
                        q[0] = (q[0] + d) % P;
                        let k = q.len() - 1;
                        q[k] = (q[k] + P - d) % P;
                        v(&pf, &q, None);
                    }
                    if !pubs.is_empty() {
                        v(&pf, &pubs[1..], None);
                        v(&pf, &pubs[..pubs.len() - 1], None);
                        v(&pf, &[], None);
                    }
                    let mut q = pubs.clone();
                    q.push(0);
                    v(&pf, &q, None);
                    q.push(1);
                    v(&pf, &q, None);
                    let d = 1 + rng.below(P - 1);
                    v(
                        &Proof {
                            a: pf.a + G1(d),
                            ..pf.clone()
                        },
                        &pubs,
                        None,
                    );
                    v(
                        &Proof {
                            b: pf.b + G2(d),
                            ..pf.clone()
                        },
                        &pubs,
                        None,
                    );
                    v(
                        &Proof {
                            c: pf.c + G1(d),
                            ..pf.clone()
                        },
                        &pubs,
                        None,
                    );
                    v(
                        &Proof {
                            a: -pf.a,
                            ..pf.clone()
                        },
                        &pubs,
                        None,
                    );
                    // A malleated proof of the same statement: still valid.
                    v(
                        &Proof {
                            a: -pf.a,
                            b: -pf.b,
                            c: pf.c,
                        },
                        &pubs,
                        None,
                    );
                    let k = Fp::<P>(1 + rng.below(P - 1));
                    v(
                        &Proof {
                            a: pf.a * k,
                            b: pf.b * k.invert().unwrap(),
                            c: pf.c,
                        },
                        &pubs,
                        None,
                    );
                    v(
                        &Proof {
                            a: G1(0),
                            b: G2(0),
                            c: G1(0),
                        },
                        &pubs,
                        None,
                    );
                    v(
                        &Proof {
                            a: params.vk.alpha_g1,
                            b: params.vk.beta_g2,
                            c: G1(0),
                        },
                        &pubs,
                        None,
                    );
                    v(
                        &Proof {
                            a: G1(rng.below(P)),
                            b: G2(rng.below(P)),
                            c: G1(rng.below(P)),
                        },
                        &pubs,
                        None,
                    );
                    // A proof made to fit other inputs: solve the equation for c.
                    // Other keys.
                    for f in 0..6 {
                        let mut vk = params.vk.clone();
                        let d = 1 + rng.below(P - 1);
                        match f {
                            0 => vk.alpha_g1 += G1(d),
                            1 => vk.beta_g2 += G2(d),
                            2 => vk.gamma_g2 += G2(d),
                            3 => vk.delta_g2 += G2(d),
                            4 => vk.ic[0] += G1(d),
                            _ => {
                                let n = vk.ic.len() - 1;
                                vk.ic[n] += G1(d)
                            }
                        }
                        v(&pf, &pubs, Some(&vk));
                    }
                }
            }
        }
    }
    obj! {"p"=>P,"g"=>Fp::<P>::MULTIPLICATIVE_GENERATOR,"ops"=>prog.json(),"tox"=>t.json(),"ev"=>ev}
}

/// A changed assignment under two independent reference strings.
pub fn unsat<const P: u64>(prog: &Prog, rng: &mut Rng) -> Option<J> {
    let mut inp = prog.inputs();
    let mut aux = prog.aux();
    let n = inp.len() - 1 + aux.len();
    if n == 0 {
        return None;
    }
    let k = rng.below(n as u64) as usize;
    let d = 1 + rng.below(P - 1);
    if k < aux.len() {
        aux[k] = (aux[k] + d) % P;
    } else {
        inp[k - aux.len() + 1] = (inp[k - aux.len() + 1] + d) % P;
    }
    let bad = prog.with(&inp, &aux);
    let mut res = vec![];
    for _ in 0..2 {
        let t = Tox::random(rng, P);
        let params = generate::<P>(prog, &t).ok()?;
        let r = match prove(&bad, &params, rng.below(P), rng.below(P)).0 {
            Ok(pf) => verify(&params.vk, &pf, &inp[1..]),
            Err(e) => e,
        };
        res.push(r);
    }
    Some(
        obj! {"p"=>P,"g"=>Fp::<P>::MULTIPLICATIVE_GENERATOR,"ops"=>prog.json(),
        "ev"=>vec![obj!{"e"=>"unsat","inp"=>inp,"aux"=>aux,"res1"=>res[0].clone(),"res2"=>res[1].clone()}]},
    )
}

pub fn scripted_random<const P: u64>(
    prog: &Prog,
    params: &Parameters<Toy<P>>,
    words: Vec<u64>,
) -> Result<Proof<Toy<P>>, String> {
    let mut rng = Script::new(words);
    match guard(|| create_random_proof::<Toy<P>, _, _, _>(Run::honest(prog), params, &mut rng)) {
        Ok(Ok(p)) => Ok(p),
        Ok(Err(e)) => Err(err_name(&e).to_string()),
        Err(m) => Err(format!("panic: {}", m)),
    }
}
