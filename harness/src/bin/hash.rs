//! The hash circuits on inputs from HashGen.tla, recorded for HashTrace.tla and CertTrace.tla.
use bellman::gadgets::blake2s::blake2s;
use bellman::gadgets::boolean::*;
use bellman::gadgets::sha256::{sha256, sha256_block_no_padding};
use bellman::*;
use bls12_381::Scalar;
use conf::cert::*;
use conf::gad::Probe;
use conf::obs::*;
use conf::rec::*;
use conf::rng::Rng;
use conf::tcs::Tcs;
use conf::toy::*;
use conf::util::*;
use conf::{json, obj, J};
use ff::PrimeField;
use std::collections::BTreeSet;

struct Input {
    alg: String,
    code: Vec<usize>,
    pers: Vec<u8>,
}

/// Input bit codes: 0 and 1 are constants, 2f is free bit f and 2f + 1 its negation.
fn codes(n: usize, pat: &str, rng: &mut Rng) -> Vec<usize> {
    let mut free = 0;
    let mut fresh = |neg: bool| {
        free += 1;
        2 * free + neg as usize
    };
    let single = rng.below(n.max(1) as u64) as usize;
    let mut c: Vec<usize> = vec![];
    for i in 0..n {
        let konst = rng.below(2) as usize;
        let x = match pat {
            "const" => konst,
            "zero" => 0,
            "ones" => 1,
            "alloc" => fresh(false),
            "neg" => fresh(true),
            "one" if i == single => fresh(false),
            "one" => konst,
            "alias" if i == 0 => fresh(false),
            "alias" => 2 + konst,
            "head" if i < n / 2 => fresh(false),
            "tail" if i >= n / 2 => fresh(false),
            "head" | "tail" => konst,
            "mixed" => match rng.below(8) {
                0 | 1 => konst,
                2..=4 => fresh(false),
                5 | 6 => fresh(true),
                _ if i > 0 => {
                    let j = c[rng.below(i as u64) as usize];
                    j ^ konst
                }
                _ => konst,
            },
            x => panic!("harness: pattern {}", x),
        };
        c.push(x);
    }
    c
}

struct Res {
    out: Vec<Boolean>,
    free: Vec<Variable>,
    err: Option<SynthesisError>,
}

fn run<S: PrimeField, CS: ConstraintSystem<S> + Probe>(
    cs: &mut CS,
    i: &Input,
    free: &[Option<bool>],
) -> Res {
    let mut r = Res {
        out: vec![],
        free: vec![],
        err: None,
    };
    match hash(cs, i, free, &mut r.free) {
        Ok(o) => r.out = o,
        Err(e) => r.err = Some(e),
    }
    r
}
fn hash<S: PrimeField, CS: ConstraintSystem<S> + Probe>(
    cs: &mut CS,
    i: &Input,
    free: &[Option<bool>],
    fv: &mut Vec<Variable>,
) -> Result<Vec<Boolean>, SynthesisError> {
    let mut bits = vec![];
    for (k, f) in free.iter().enumerate() {
        cs.missing(f.is_none());
        let a = AllocatedBit::alloc(cs.namespace(|| format!("bit {}", k)), *f)?;
        fv.push(a.get_variable());
        bits.push(Boolean::from(a));
    }
    cs.missing(false);
    let msg: Vec<Boolean> = i
        .code
        .iter()
        .map(|c| match c {
            0 | 1 => Boolean::constant(*c == 1),
            c if c % 2 == 0 => bits[c / 2 - 1].clone(),
            c => bits[c / 2 - 1].not(),
        })
        .collect();
    match i.alg.as_str() {
        "sha" => sha256(cs.namespace(|| "hash"), &msg),
        "block" => sha256_block_no_padding(cs.namespace(|| "hash"), &msg),
        _ => blake2s(cs.namespace(|| "hash"), &msg, &i.pers),
    }
}

fn case<S: PrimeField>(
    field: &str,
    i: &Input,
    rng: &mut Rng,
    nruns: usize,
    nmiss: usize,
    cert: Option<&mut Out>,
) -> J {
    let nf = i.code.iter().map(|c| c / 2).max().unwrap_or(0);
    let none = vec![None; nf];
    let mut o = obj! {"field"=>field, "alg"=>i.alg.as_str(), "code"=>i.code.clone(),
    "pers"=>i.pers.iter().map(|b| *b as usize).collect::<Vec<usize>>()};
    let shape = guard(|| {
        let mut cs = Rec::<S>::new(Mode::Shape);
        let r = run::<S, _>(&mut cs, i, &none);
        (cs, r)
    });
    let (cs0, r0) = match shape {
        Ok(x) => x,
        Err(_) => {
            o.push("panic", 1usize);
            o.push("err", "");
            o.push("ns", true);
            o.push("ncons", 0usize);
            o.push("runs", J::Arr(vec![]));
            return o;
        }
    };
    o.push("panic", 0usize);
    o.push("err", r0.err.as_ref().map(|e| err_name(e)).unwrap_or(""));
    o.push("ns", !cs0.underflow && cs0.depth == 0);
    o.push("ncons", cs0.cons.len());
    if let (Some(certs), None) = (cert, &r0.err) {
        let nm = Names::new(&cs0);
        let free: BTreeSet<usize> = r0
            .free
            .iter()
            .map(|v| match v.get_unchecked() {
                Index::Aux(i) => nm.aux[i],
                Index::Input(i) => nm.inp[i],
            })
            .collect();
        certs.put(&certificate(&cs0, &free, &lcs::<S>(&r0.out)));
    }
    let mut runs: Vec<(Vec<Option<bool>>, bool)> = vec![];
    for q in 0..if nf == 0 { 1 } else { nruns } {
        runs.push((
            (0..nf)
                .map(|_| {
                    Some(match q {
                        1 => false,
                        2 => true,
                        _ => rng.coin(),
                    })
                })
                .collect(),
            false,
        ));
    }
    for m in 0..if nf == 0 { 0 } else { nmiss } {
        let mut c: Vec<Option<bool>> = (0..nf).map(|_| Some(rng.coin())).collect();
        let used: Vec<usize> = i
            .code
            .iter()
            .filter(|c| **c > 1)
            .map(|c| c / 2 - 1)
            .collect();
        if m >= 2 {
            c = none.clone()
        } else {
            c[*rng.pick(&used)] = None
        }
        runs.push((c, m % 2 == 0));
    }
    let mut js = vec![];
    for (c, len) in runs {
        let full = c.iter().all(|x| x.is_some());
        let fj = J::Arr(
            c.iter()
                .map(|x| J::Int(x.map(|b| b as i64).unwrap_or(-1)))
                .collect(),
        );
        let r = guard(|| {
            let mut cs = Rec::<S>::new(Mode::Witness);
            cs.lenient = len;
            let r = run::<S, _>(&mut cs, i, &c);
            (cs, r)
        });
        let mut j = obj! {"free"=>fj, "full"=>full, "len"=>len};
        match r {
            Err(_) => {
                j.push("err", "panic");
                j.push("same", false);
                j.push("sat", 0usize);
                j.push("got", J::Arr(vec![]));
                j.push("worth", J::Arr(vec![]));
                j.push("tn", 0usize);
            }
            Ok((cs, r)) => {
                j.push("err", r.err.as_ref().map(|e| err_name(e)).unwrap_or(""));
                j.push("same", r.err.is_some() || cs.same_shape(&cs0));
                let mut tn = cs0.cons.len();
                let mut sat = full && r.err.is_none() && cs.unsatisfied().is_none();
                if full && r.err.is_none() {
                    let mut t = Tcs::<S>::new();
                    let e = run::<S, _>(&mut t, i, &c).err.is_some();
                    tn = t.0.num_constraints();
                    sat = sat && !e && t.0.is_satisfied();
                }
                j.push("sat", sat as usize);
                j.push("tn", tn);
                j.push("got", claims(&r.out));
                j.push("worth", worths(&cs, &r.out));
            }
        }
        js.push(j);
    }
    o.push("runs", J::Arr(js));
    o
}

/// One long message of constant bits (HashLong.tla has the formula of its bytes).
fn long(out: &mut Out, alg: &str, n: usize, rng: &mut Rng) {
    let (a, b, c) = (
        1 + rng.below(255) as usize,
        rng.below(256) as usize,
        rng.below(256) as usize,
    );
    let le = alg == "b2s";
    let pers: Vec<u8> = (0..8).map(|_| rng.next() as u8).collect();
    let i = Input {
        alg: alg.into(),
        code: (0..8 * n)
            .map(|k| {
                let j = k / 8;
                let byte = (a * j + b * (j / 256) + c) % 256;
                byte >> (if le { k % 8 } else { 7 - k % 8 }) & 1
            })
            .collect(),
        pers: if le { pers } else { vec![] },
    };
    let r = guard(|| {
        let mut cs = Rec::<Fp<18446744069414584321>>::new(Mode::Witness);
        run(&mut cs, &i, &[])
    });
    let (res, got) = match &r {
        Err(_) => ("panic", J::Arr(vec![])),
        Ok(Res { err: Some(e), .. }) => (err_name(e), J::Arr(vec![])),
        Ok(r) => ("ok", claims(&r.out)),
    };
    out.put(&obj! {"alg"=>alg,"n"=>n,"a"=>a,"b"=>b,"c"=>c,
    "pers"=>i.pers.iter().map(|b| *b as usize).collect::<Vec<usize>>(),"res"=>res,"got"=>got});
}

/// hash run OUT CASES CERTS FIELDS RUNS MISSING PART OF
/// hash long OUT ALG LENGTHS
fn main() {
    quiet_panics();
    let mut out = Out::new(&arg(2));
    if arg(1) == "long" {
        let mut rng = Rng::new(seed() * 77);
        for n in arg(4).split(',') {
            long(&mut out, &arg(3), n.parse().unwrap(), &mut rng);
        }
        return;
    }
    let cases = json::read_lines(&arg(3));
    let mut certs = Out::new(&arg(4));
    let fields = arg(5);
    let nruns: usize = arg(6).parse().unwrap();
    let nmiss: usize = arg(7).parse().unwrap();
    let part: usize = arg(8).parse().unwrap();
    let of: usize = arg(9).parse().unwrap();
    for (k, c) in cases.iter().enumerate() {
        if k % of != part {
            continue;
        }
        let a = c.arr();
        let mut rng = Rng::new(seed() ^ ((k as u64) << 8));
        let i = Input {
            alg: a[0].str().into(),
            code: codes(a[1].us(), a[2].str(), &mut rng),
            pers: a[3].arr().iter().map(|b| b.int() as u8).collect(),
        };
        let want = a[4].int() == 1;
        for f in fields.split(',') {
            let ce = if want { Some(&mut certs) } else { None };
            let j = match f {
                "gold" => case::<Fp<18446744069414584321>>(f, &i, &mut rng, nruns, nmiss, ce),
                "bls" => case::<Scalar>(f, &i, &mut rng, nruns, nmiss, ce),
                _ => panic!("harness: field"),
            };
            out.put(&j);
        }
    }
}
