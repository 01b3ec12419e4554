//! Runs gadget programs on the real gadgets and records the constraint system, the
//! registers and what happened for many assignments (checked by SatTrace.tla, RunTrace.tla).
use bellman::gadgets::test::TestConstraintSystem;
use bellman::*;
use conf::gad::*;
use conf::rec::*;
use conf::rng::Rng;
use conf::toy::*;
use conf::util::*;
use conf::{json, obj, J};
use ff::{PrimeField, PrimeFieldBits};
use groth16::*;

fn int<S: PrimeField>(v: &S) -> J {
    let r = v.to_repr();
    let b = r.as_ref();
    let mut x = 0i64;
    for i in (0..8).rev() {
        x = (x << 8) | b[i] as i64;
    }
    J::Int(x)
}
fn opt<S: PrimeField>(v: &Option<S>) -> J {
    v.as_ref().map(int).unwrap_or(J::Int(-1))
}

/// Fills in what the specification leaves to the harness: random tables and coefficients.
fn expand(ins: &J, rng: &mut Rng, p: u64) -> J {
    let i = ins.arr();
    let v = |rng: &mut Rng| match rng.below(5) {
        0 => 0,
        1 => p - 1,
        2 => 1,
        _ => rng.below(p),
    };
    match i[0].str() {
        "look" | "slook" => {
            let n = if i[0].str() == "look" { 8 } else { 4 };
            let kind = i[4].int();
            let t: Vec<J> = (0..n)
                .map(|k| {
                    let (x, y) = if kind >= 1 && kind <= n {
                        // a unit table: the result is linear in the entries
                        ((k == kind - 1) as u64, 2 * (k == kind - 1) as u64 % p)
                    } else {
                        (v(rng), v(rng))
                    };
                    J::Arr(vec![x.into(), y.into()])
                })
                .collect();
            J::Arr(vec![
                i[0].clone(),
                i[1].clone(),
                i[2].clone(),
                i[3].clone(),
                J::Arr(t),
            ])
        }
        "lin" => {
            let mut o = vec![i[0].clone(), i[1].clone()];
            for x in &i[2..] {
                o.push(J::Arr(vec![x.clone(), v(rng).into()]));
            }
            J::Arr(o)
        }
        _ => ins.clone(),
    }
}

struct Numbering {
    inp: Vec<usize>,
    aux: Vec<usize>,
    n: usize,
}
fn numbering<S: PrimeField>(r: &Rec<S>) -> Numbering {
    let (mut inp, mut aux, mut n) = (vec![1], vec![], 1);
    for o in &r.order {
        match o {
            'i' => {
                n += 1;
                inp.push(n)
            }
            'a' => {
                n += 1;
                aux.push(n)
            }
            _ => (),
        }
    }
    Numbering { inp, aux, n }
}
impl Numbering {
    fn lc<S: PrimeField>(&self, l: &Lc<S>) -> J {
        J::Arr(
            l.iter()
                .map(|(a, i, c)| {
                    let v = if *a { self.aux[*i] } else { self.inp[*i] };
                    J::Arr(vec![v.into(), int(c)])
                })
                .collect(),
        )
    }
    fn max<S: PrimeField>(&self, c: &(Lc<S>, Lc<S>, Lc<S>)) -> usize {
        [&c.0, &c.1, &c.2]
            .iter()
            .flat_map(|l| l.iter())
            .map(|(a, i, _)| if *a { self.aux[*i] } else { self.inp[*i] })
            .max()
            .unwrap_or(1)
    }
}

fn regs_of<S: PrimeField>(cs: &Rec<S>, run: &Run<S>, nu: &Numbering) -> (J, J) {
    let one = <Rec<S> as ConstraintSystem<S>>::one();
    let _ = cs;
    (
        J::Arr(run.regs.iter().map(|r| nu.lc(&r.lc(one))).collect()),
        J::Arr(
            run.regs
                .iter()
                .map(|r| nu.lc(&r.scaled(one, S::from(3))))
                .collect(),
        ),
    )
}

fn got_of<S: PrimeField>(cs: &Rec<S>, run: &Run<S>) -> J {
    J::Arr(
        run.regs
            .iter()
            .map(|r| match r {
                // an input claims nothing: report what it was assigned
                Reg::I(v) => match v.get_unchecked() {
                    Index::Input(i) => opt(&cs.inputs[i]),
                    Index::Aux(i) => opt(&cs.aux[i]),
                },
                r => opt(&r.got()),
            })
            .collect(),
    )
}

fn err_of<S: PrimeField>(r: &Run<S>) -> (J, J) {
    match &r.err {
        None => (0usize.into(), "".into()),
        Some((k, e)) => ((k + 1).into(), err_name(e).into()),
    }
}

struct GadCircuit<'a> {
    prog: &'a [J],
    free: Vec<Option<u64>>,
    /// Raise this error after instruction k.
    fail: Option<(usize, fn() -> SynthesisError)>,
    /// Makes every variable take part in a constraint.
    touch: bool,
    /// The value of this allocation (counted from one) raises this error.
    value: Option<(usize, fn() -> SynthesisError)>,
}
thread_local! {
    /// How many values have been asked for.
    static ASKED: std::cell::Cell<usize> = std::cell::Cell::new(0);
}
struct Wrap<'a, S: PrimeField, CS: ConstraintSystem<S>> {
    cs: &'a mut CS,
    inputs: usize,
    vars: Vec<Variable>,
    allocs: usize,
    value: Option<(usize, fn() -> SynthesisError)>,
    _s: std::marker::PhantomData<S>,
}
impl<'a, S: PrimeField, CS: ConstraintSystem<S>> Probe for Wrap<'a, S, CS> {
    fn ninputs(&self) -> usize {
        self.inputs
    }
    fn missing(&mut self, _: bool) {}
}
impl<'a, S: PrimeField, CS: ConstraintSystem<S>> Wrap<'a, S, CS> {
    /// Watches the closure of the next allocation.
    fn watch<F: FnOnce() -> Result<S, SynthesisError>>(
        &mut self,
        f: F,
    ) -> impl FnOnce() -> Result<S, SynthesisError> {
        self.allocs += 1;
        let e = self.value.filter(|x| x.0 == self.allocs).map(|x| x.1);
        move || {
            ASKED.with(|a| a.set(a.get() + 1));
            match e {
                Some(e) => Err(e()),
                None => f(),
            }
        }
    }
}
impl<'a, S: PrimeField, CS: ConstraintSystem<S>> ConstraintSystem<S> for Wrap<'a, S, CS> {
    type Root = Self;
    fn alloc<F, A, AR>(&mut self, a: A, f: F) -> Result<Variable, SynthesisError>
    where
        F: FnOnce() -> Result<S, SynthesisError>,
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        let f = self.watch(f);
        let v = self.cs.alloc(a, f)?;
        self.vars.push(v);
        Ok(v)
    }
    fn alloc_input<F, A, AR>(&mut self, a: A, f: F) -> Result<Variable, SynthesisError>
    where
        F: FnOnce() -> Result<S, SynthesisError>,
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        let f = self.watch(f);
        let v = self.cs.alloc_input(a, f)?;
        self.inputs += 1;
        Ok(v)
    }
    fn enforce<A, AR, LA, LB, LC>(&mut self, an: A, a: LA, b: LB, c: LC)
    where
        A: FnOnce() -> AR,
        AR: Into<String>,
        LA: FnOnce(LinearCombination<S>) -> LinearCombination<S>,
        LB: FnOnce(LinearCombination<S>) -> LinearCombination<S>,
        LC: FnOnce(LinearCombination<S>) -> LinearCombination<S>,
    {
        self.cs.enforce(an, a, b, c)
    }
    fn push_namespace<NR, N>(&mut self, n: N)
    where
        NR: Into<String>,
        N: FnOnce() -> NR,
    {
        self.cs.get_root().push_namespace(n)
    }
    fn pop_namespace(&mut self) {
        self.cs.get_root().pop_namespace()
    }
    fn get_root(&mut self) -> &mut Self {
        self
    }
}

impl<'a, S: PrimeFieldBits> Circuit<S> for GadCircuit<'a> {
    fn synthesize<CS: ConstraintSystem<S>>(self, cs: &mut CS) -> Result<(), SynthesisError> {
        let mut w = Wrap {
            cs,
            inputs: 1,
            vars: vec![],
            allocs: 0,
            value: self.value,
            _s: std::marker::PhantomData,
        };
        let upto = self.fail.map(|x| x.0).unwrap_or(self.prog.len());
        let r = run::<S, _>(&mut w, &self.prog[..upto], &self.free);
        if let Some((_, e)) = r.err {
            return Err(e);
        }
        if let Some((_, e)) = self.fail {
            return Err(e());
        }
        if self.touch {
            for (i, v) in w.vars.clone().into_iter().enumerate() {
                w.enforce(|| format!("touch {}", i), |lc| lc + v, |lc| lc, |lc| lc);
            }
        }
        Ok(())
    }
}

fn case<const P: u64>(
    prog: &[J],
    rng: &mut Rng,
    maxruns: usize,
) -> (J, Vec<J>, Vec<Vec<Option<u64>>>) {
    let prog: Vec<J> = prog.iter().map(|i| expand(i, rng, P)).collect();
    let nf = nfree(&prog);
    let kinds: Vec<&J> = prog.iter().filter(|i| is_free(i)).collect();
    // The shape, synthesized without any witness.
    let none = vec![None; nf];
    let shape = guard(|| {
        let mut cs = Rec::<Fp<P>>::new(Mode::Shape);
        let r = run(&mut cs, &prog, &none);
        (cs, r)
    });
    let mut o = obj! {"p"=>P, "cap"=><Fp<P> as PrimeField>::CAPACITY as usize, "prog"=>J::Arr(prog.clone())};
    let (cs0, r0) = match shape {
        Ok(x) => x,
        Err(_) => {
            o.push("panic", 1usize);
            return (o, prog, vec![]);
        }
    };
    let nu = numbering(&cs0);
    let (ek, en) = err_of(&r0);
    let (regs, regs3) = regs_of(&cs0, &r0, &nu);
    let mut at: Vec<Vec<usize>> = vec![vec![]; nu.n];
    for (i, c) in cs0.cons.iter().enumerate() {
        at[nu.max(c) - 1].push(i + 1);
    }
    // Values to try for field elements that no constraint determines.
    let all: Vec<u64> = if P <= 17 {
        (0..P).collect()
    } else {
        let mut d = vec![0, 1, 2, 3, P - 1, P - 2, P / 2, P / 2 + 1];
        let b = 64 - P.leading_zeros();
        d.push((1 << (b - 1)) - 1);
        d.push(1 << (b - 1));
        for _ in 0..if nf > 2 { 1 } else { 6 } {
            d.push(rng.below(P));
        }
        d.retain(|x| *x < P);
        d.sort();
        d.dedup();
        d
    };
    o.push("panic", 0usize);
    o.push("ek", ek);
    o.push("err", en.clone());
    o.push("nv", nu.n);
    o.push(
        "free",
        J::Arr(kinds.iter().map(|k| k.arr()[0].clone()).collect()),
    );
    o.push(
        "off",
        J::Arr(r0.off.iter().map(|x| J::from(x + 1)).collect()),
    );
    o.push("regs", regs);
    o.push("regs3", regs3);
    o.push(
        "cons",
        J::Arr(
            cs0.cons
                .iter()
                .map(|c| J::Arr(vec![nu.lc(&c.0), nu.lc(&c.1), nu.lc(&c.2)]))
                .collect(),
        ),
    );
    o.push("at", J::Arr(at.into_iter().map(J::from).collect()));
    o.push("dom", all.clone());
    o.push("ns", !cs0.underflow && cs0.depth == 0);

    // Runs with all values; all combinations when there are few.
    let dims: Vec<Vec<u64>> = kinds
        .iter()
        .map(|k| match k.arr()[0].str() {
            "bit" | "bitc" => vec![0, 1],
            "ubits" => vec![0, 1, u64::MAX, 1 << 63, 1 << 32, rng.next(), rng.next()],
            _ => all.clone(),
        })
        .collect();
    let total = dims
        .iter()
        .fold(1u64, |a, d| a.saturating_mul(d.len() as u64));
    let mut combos = vec![];
    if total <= maxruns as u64 {
        for mut x in 0..total {
            combos.push(
                dims.iter()
                    .map(|d| {
                        let v = d[(x % d.len() as u64) as usize];
                        x /= d.len() as u64;
                        Some(v)
                    })
                    .collect::<Vec<_>>(),
            );
        }
    } else {
        for _ in 0..maxruns {
            combos.push(dims.iter().map(|d| Some(*rng.pick(d))).collect());
        }
    }
    let mut runs = vec![];
    for c in &combos {
        runs.push((c.clone(), false));
    }
    // Missing values: one at a time, and all; strict (as the prover) and lenient.
    for m in 0..=nf {
        for lenient in [false, true] {
            for _ in 0..2 {
                let mut c = rng.pick(&combos).clone();
                if m == nf {
                    c.iter_mut().for_each(|x| *x = None)
                } else {
                    c[m] = None
                }
                if nf > 0 {
                    runs.push((c, lenient));
                }
            }
        }
    }
    let mut js = vec![];
    for (c, lenient) in runs {
        let big = kinds.iter().any(|k| k.arr()[0].str() == "ubits");
        let fj = J::Arr(
            c.iter()
                .map(|v| match v {
                    None if big => J::Arr(vec![]),
                    None => J::Int(-1),
                    Some(x) if big => {
                        J::Arr((0..64).map(|i| J::from((x >> i & 1) as usize)).collect())
                    }
                    Some(x) => J::from(*x),
                })
                .collect(),
        );
        let complete = c.iter().all(|x| x.is_some());
        let res = guard(|| {
            let mut cs = Rec::<Fp<P>>::new(Mode::Witness);
            cs.lenient = lenient;
            let r = run(&mut cs, &prog, &c);
            (cs, r)
        });
        let mut j = obj! {"free"=>fj, "full"=>complete, "len"=>lenient};
        match res {
            Err(_) => {
                for (k, v) in [
                    ("err", J::from("panic")),
                    ("ek", J::Int(0)),
                    ("same", J::Bool(false)),
                ] {
                    j.push(k, v);
                }
                j.push("w", J::Arr(vec![]));
                j.push("got", J::Arr(vec![]));
            }
            Ok((cs, r)) => {
                let (k, n) = err_of(&r);
                let mut w = vec![J::Int(-1); 1 + cs.inputs.len() - 1 + cs.aux.len()];
                let nn = numbering(&cs);
                for (i, v) in cs.inputs.iter().enumerate() {
                    w[nn.inp[i] - 1] = opt(v);
                }
                for (i, v) in cs.aux.iter().enumerate() {
                    w[nn.aux[i] - 1] = opt(v);
                }
                j.push(
                    "same",
                    if r.err.is_none() {
                        cs.same_shape(&cs0)
                    } else {
                        true
                    },
                );
                j.push("got", got_of(&cs, &r));
                j.push("w", J::Arr(w));
                j.push("ek", k);
                j.push("err", n);
                if complete && r.err.is_none() {
                    let t = guard(|| {
                        let mut t = TestConstraintSystem::<Fp<P>>::new();
                        let mut w = Wrap {
                            cs: &mut t,
                            inputs: 1,
                            vars: vec![],
                            allocs: 0,
                            value: None,
                            _s: std::marker::PhantomData,
                        };
                        let e = run(&mut w, &prog, &c).err.is_some();
                        (e, t.num_constraints(), t.is_satisfied())
                    });
                    match t {
                        Ok((false, n, s)) => {
                            j.push("tn", n);
                            j.push("ts", s as usize);
                        }
                        _ => {
                            j.push("tn", J::Int(-1));
                            j.push("ts", 2usize);
                        }
                    }
                } else {
                    j.push("tn", J::Int(-1));
                    j.push("ts", J::Int(-1));
                }
            }
        }
        js.push(j);
    }
    o.push("runs", J::Arr(js));
    o.push("e2e", J::Arr(vec![]));
    o.push("inj", J::Arr(vec![]));
    (o, prog, combos)
}

/// End to end through the generator and the prover.
fn proofs(prog: &[J], combos: &[Vec<Option<u64>>], o: &mut J, rng: &mut Rng) {
    const P: u64 = 40961;
    let nf = nfree(prog);
    let none = vec![None; nf];
    let en = J::from(o.get("err").str());
    let g16 = true;
    // End to end: key from the shape, proof from a witness.
    let mut e2e = vec![];
    if g16 && en.str() == "" {
        for q in 0..3 {
            let c = rng.pick(&combos).clone();
            let mk = |free: Vec<Option<u64>>| GadCircuit {
                prog,
                free,
                fail: None,
                touch: true,
                value: None,
            };
            let mut inputs = vec![];
            let mut cs = Rec::<Fp<P>>::new(Mode::Witness);
            if run(&mut cs, prog, &c).err.is_none() && cs.unsatisfied().is_none() {
                inputs.extend(cs.inputs[1..].iter().map(|x| x.unwrap()));
            } else {
                continue;
            }
            let mut rg = Rng::new(rng.next());
            // the key may come from any witness or none
            let kf = if q == 2 {
                rng.pick(&combos).clone()
            } else {
                none.clone()
            };
            // in a small field the toxic waste can be a root by chance: try again
            let mut s = "";
            for _ in 0..4 {
                let r = guard(|| {
                    let params =
                        generate_random_parameters::<Toy<P>, _, _>(mk(kf.clone()), &mut rg)
                            .map_err(|e| err_name(&e))?;
                    let proof = create_random_proof(mk(c.clone()), &params, &mut rg)
                        .map_err(|e| err_name(&e))?;
                    let pvk = prepare_verifying_key(&params.vk);
                    verify_proof(&pvk, &proof, &inputs).map_err(|e| verr_name(&e))
                });
                s = match r {
                    Ok(Ok(())) => "ok",
                    Ok(Err(e)) => e,
                    Err(_) => "panic",
                };
                if s != "UnconstrainedVariable" {
                    break;
                }
            }
            e2e.push(J::from(s));
        }
    }
    o.set("e2e", J::Arr(e2e));
    // Errors and missing values through the generator and the prover.
    let mut inj = vec![];
    if g16 && en.str() == "" {
        let c = rng.pick(&combos).clone();
        let mut rg = Rng::new(rng.next());
        let mk = |free: Vec<Option<u64>>, fail| GadCircuit {
            prog,
            free,
            fail,
            touch: true,
            value: None,
        };
        let params =
            guard(|| generate_random_parameters::<Toy<P>, _, _>(mk(none.clone(), None), &mut rg));
        if let Ok(Ok(params)) = params {
            let errs: [(&str, fn() -> SynthesisError); 7] = [
                ("AssignmentMissing", || SynthesisError::AssignmentMissing),
                ("DivisionByZero", || SynthesisError::DivisionByZero),
                ("Unsatisfiable", || SynthesisError::Unsatisfiable),
                ("PolynomialDegreeTooLarge", || {
                    SynthesisError::PolynomialDegreeTooLarge
                }),
                ("UnexpectedIdentity", || SynthesisError::UnexpectedIdentity),
                ("UnconstrainedVariable", || {
                    SynthesisError::UnconstrainedVariable
                }),
                ("IoOther", || {
                    SynthesisError::IoError(std::io::Error::new(
                        std::io::ErrorKind::Other,
                        "injected",
                    ))
                }),
            ];
            for (name, e) in errs.iter() {
                let k = rng.below(prog.len() as u64 + 1) as usize;
                let mut c2 = c.clone();
                // make sure that the program itself would get as far as that
                let mut cs = Rec::<Fp<P>>::new(Mode::Witness);
                if run(&mut cs, &prog[..k], &c2).err.is_some() {
                    continue;
                }
                let gen = guard(|| {
                    generate_random_parameters::<Toy<P>, _, _>(
                        mk(none.clone(), Some((k, *e))),
                        &mut rg,
                    )
                    .map(|_| ())
                    .map_err(|e| err_name(&e))
                });
                let prv = guard(|| {
                    create_random_proof(mk(c2.clone(), Some((k, *e))), &params, &mut rg)
                        .map(|_| ())
                        .map_err(|e| err_name(&e))
                });
                let nm = |r: Result<Result<(), &'static str>, String>| match r {
                    Ok(Ok(())) => "ok",
                    Ok(Err(e)) => e,
                    Err(_) => "panic",
                };
                inj.push(obj! {"what"=>"raise","want"=>*name,"gen"=>nm(gen),"prv"=>nm(prv)});
                // Where a value is asked for: by the prover only.
                let mut cs = Rec::<Fp<P>>::new(Mode::Witness);
                if run(&mut cs, &prog, &c2).err.is_none() && cs.order.iter().any(|o| *o != 'c') {
                    let n = cs.order.iter().filter(|o| **o != 'c').count();
                    let v = Some((1 + rng.below(n as u64) as usize, *e));
                    let asks = |free: &Vec<Option<u64>>| {
                        let mut k = mk(free.clone(), None);
                        k.value = v;
                        k
                    };
                    ASKED.with(|a| a.set(0));
                    let mut gen = "";
                    for _ in 0..4 {
                        gen = nm(guard(|| {
                            generate_random_parameters::<Toy<P>, _, _>(asks(&none), &mut rg)
                                .map(|_| ())
                                .map_err(|e| err_name(&e))
                        }));
                        if gen == "ok" {
                            break;
                        }
                    }
                    let asked = ASKED.with(|a| a.get());
                    let prv = nm(guard(|| {
                        create_random_proof(asks(&c2), &params, &mut rg)
                            .map(|_| ())
                            .map_err(|e| err_name(&e))
                    }));
                    inj.push(
                        obj! {"what"=>"value","want"=>*name,"gen"=>gen,"prv"=>prv,"asked"=>asked},
                    );
                }
                if nf > 0 {
                    let m = rng.below(nf as u64) as usize;
                    c2[m] = None;
                    let prv = guard(|| {
                        create_random_proof(mk(c2.clone(), None), &params, &mut rg)
                            .map(|_| ())
                            .map_err(|e| err_name(&e))
                    });
                    inj.push(obj! {"what"=>"missing","want"=>"AssignmentMissing","gen"=>"","prv"=>nm(prv)});
                }
            }
        }
    }
    o.set("inj", J::Arr(inj));
}

macro_rules! by_prime {
    ($p:expr, $f:ident, $($a:expr),*) => {
        match $p {
            5 => $f::<5>($($a),*),
            7 => $f::<7>($($a),*),
            13 => $f::<13>($($a),*),
            31 => $f::<31>($($a),*),
            47 => $f::<47>($($a),*),
            61 => $f::<61>($($a),*),
            113 => $f::<113>($($a),*),
            97 => $f::<97>($($a),*),
            127 => $f::<127>($($a),*),
            193 => $f::<193>($($a),*),
            241 => $f::<241>($($a),*),
            251 => $f::<251>($($a),*),
            257 => $f::<257>($($a),*),
            1031 => $f::<1031>($($a),*),
            40961 => $f::<40961>($($a),*),
            p => panic!("harness: prime {}", p),
        }
    };
}

/// gad run OUT PROGRAMS PRIMES(comma separated) MAXRUNS PART OF [g16]
fn main() {
    quiet_panics();
    let mut out = Out::new(&arg(2));
    let progs = json::read_lines(&arg(3));
    let primes: Vec<u64> = arg(4).split(',').map(|x| x.parse().unwrap()).collect();
    let maxruns: usize = arg(5).parse().unwrap();
    let part: usize = arg(6).parse().unwrap();
    let of: usize = arg(7).parse().unwrap();
    let g16 = std::env::args().nth(8).is_some();
    for (i, pr) in progs.iter().enumerate() {
        if i % of != part {
            continue;
        }
        for (j, p) in primes.iter().enumerate() {
            let mut rng = Rng::new(seed() ^ ((i as u64) << 8) ^ ((j as u64) << 40));
            let (mut c, prog, combos) = by_prime!(*p, case, pr.arr(), &mut rng, maxruns);
            if g16 && *p == 40961 && c.get("panic").int() == 0 {
                proofs(&prog, &combos, &mut c, &mut rng);
            }
            out.put(&c);
        }
    }
}
