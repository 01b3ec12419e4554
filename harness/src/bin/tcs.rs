//! Histories of the test constraint system (from TcsGen.tla), recorded for TcsTrace.tla.
use bellman::gadgets::test::TestConstraintSystem;
use bellman::*;
use bls12_381::Scalar;
use conf::rec::*;
use conf::rng::Rng;
use conf::toy::*;
use conf::util::*;
use conf::{json, obj, J};
use ff::PrimeField;
use std::cell::Cell;

const Q: u64 = 13;

struct Vars {
    inp: Vec<Variable>,
    aux: Vec<Variable>,
}
impl Vars {
    fn new<S: PrimeField, CS: ConstraintSystem<S>>(_: &CS) -> Self {
        Vars {
            inp: vec![CS::one()],
            aux: vec![],
        }
    }
    fn lc<S: PrimeField>(&self, l: LinearCombination<S>, j: &J) -> LinearCombination<S> {
        j.arr().iter().fold(l, |l, t| {
            let t = t.arr();
            let v = if t[0].int() == 0 {
                self.inp[t[1].us()]
            } else {
                self.aux[t[1].us()]
            };
            match t[2].int() {
                1 => l + v,
                c => l + (S::from(c as u64), v),
            }
        })
    }
}
fn given<S: PrimeField>(v: &J) -> Result<S, SynthesisError> {
    if v.int() < 0 {
        Err(SynthesisError::AssignmentMissing)
    } else {
        Ok(S::from(v.int() as u64))
    }
}
/// Allocations and constraints. Err: the error of the call.
fn build<S: PrimeField, CS: ConstraintSystem<S>>(
    cs: &mut CS,
    o: &[J],
    v: &mut Vars,
) -> Result<(), SynthesisError> {
    let name = o[1].str().to_string();
    match o[0].str() {
        "alloc" => {
            let x = cs.alloc(|| name, || given(&o[2]))?;
            v.aux.push(x)
        }
        "input" => {
            let x = cs.alloc_input(|| name, || given(&o[2]))?;
            v.inp.push(x)
        }
        "enf" => {
            let v = &*v;
            cs.enforce(
                || name,
                |l| v.lc(l, &o[2]),
                |l| v.lc(l, &o[3]),
                |l| v.lc(l, &o[4]),
            )
        }
        x => panic!("harness: op {}", x),
    }
    Ok(())
}

fn small<S: PrimeField>(x: S) -> i64 {
    (0..Q)
        .find(|i| S::from(*i) == x)
        .map(|i| i as i64)
        .unwrap_or(-2)
}

type T<S> = TestConstraintSystem<S>;
fn edit<S: PrimeField>(cs: &mut T<S>, o: &[J]) -> i64 {
    match o[0].str() {
        "set" => {
            cs.set(o[1].str(), S::from(o[2].int() as u64));
            -1
        }
        "get" => small(cs.get(o[1].str())),
        "getin" => small(cs.get_input(o[1].us(), o[2].str())),
        "verify" => {
            let e: Vec<S> = o[1].arr().iter().map(|v| S::from(v.int() as u64)).collect();
            cs.verify(&e) as i64
        }
        x => panic!("harness: op {}", x),
    }
}
fn event<S: PrimeField>(cs: &T<S>, r: Result<Result<i64, SynthesisError>, String>) -> J {
    let (refused, err, v) = match r {
        Err(_) => (true, "", -1),
        Ok(Err(e)) => (false, err_name(&e), -1),
        Ok(Ok(v)) => (false, "", v),
    };
    let mut o = obj! {"r"=>refused, "e"=>err, "v"=>v};
    if refused {
        return o;
    }
    let bad = cs.which_is_unsatisfied().map(|s| s.to_string());
    o.push("sat", cs.is_satisfied());
    o.push(
        "bad",
        J::Arr(bad.iter().map(|s| J::from(s.as_str())).collect()),
    );
    o.push("nin", cs.num_inputs());
    o.push("ncons", cs.num_constraints());
    o
}

/// Namespaces opened and closed by hand.
fn raw<S: PrimeField>(ops: &[J], log: &mut Vec<J>) {
    let mut cs = T::<S>::new();
    let mut v = Vars::new::<S, _>(&cs);
    for o in ops {
        let o = o.arr();
        let r = guard(|| match o[0].str() {
            "alloc" | "input" | "enf" => build(&mut cs, o, &mut v).map(|_| -1),
            "push" => {
                cs.push_namespace(|| o[1].str());
                Ok(-1)
            }
            "pop" => {
                cs.pop_namespace();
                Ok(-1)
            }
            _ => Ok(edit(&mut cs, o)),
        });
        let stop = r.is_err();
        log.push(event(&cs, r));
        if stop {
            return;
        }
    }
}
/// Namespaces as values; returns how many operations were used up and whether a pop ended
/// it, or None to stop.
fn scoped<S: PrimeField, CS: ConstraintSystem<S, Root = T<S>>>(
    cs: &mut CS,
    ops: &[J],
    v: &mut Vars,
    log: &mut Vec<J>,
) -> Option<(usize, bool)> {
    let mut k = 0;
    while k < ops.len() {
        let o = ops[k].arr();
        k += 1;
        match o[0].str() {
            "pop" => return Some((k, true)),
            "push" => {
                let entered = Cell::new(false);
                let r = guard(|| {
                    let mut ns = cs.namespace(|| o[1].str());
                    entered.set(true);
                    log.push(event(ns.get_root(), Ok(Ok(-1))));
                    scoped(&mut ns, &ops[k..], v, log)
                });
                match r {
                    Err(m) => {
                        assert!(!entered.get(), "harness: {}", m);
                        log.push(event(cs.get_root(), Err(m)));
                        return None;
                    }
                    Ok(None) => return None,
                    Ok(Some((n, popped))) => {
                        k += n;
                        if popped {
                            log.push(event(cs.get_root(), Ok(Ok(-1))));
                        }
                    }
                }
            }
            kind => {
                let r = guard(|| match kind {
                    "alloc" | "input" | "enf" => build(cs, o, v).map(|_| -1),
                    _ => Ok(edit(cs.get_root(), o)),
                });
                let stop = r.is_err();
                log.push(event(cs.get_root(), r));
                if stop {
                    return None;
                }
            }
        }
    }
    Some((k, false))
}

/// The same calls on a system that does not care for names, through layers of references
/// and namespaces.
fn other<S: PrimeField, CS: ConstraintSystem<S, Root = Rec<S>>>(
    cs: &mut CS,
    ops: &[J],
    v: &mut Vars,
    depth: usize,
) -> usize {
    let mut k = 0;
    while k < ops.len() {
        let o = ops[k].arr();
        k += 1;
        match o[0].str() {
            "pop" if depth > 0 => return k,
            "push" => {
                k += match k % 3 {
                    0 => other::<S, Rec<S>>(
                        cs.namespace(|| o[1].str()).get_root(),
                        &ops[k..],
                        v,
                        depth + 1,
                    ),
                    _ => other(&mut cs.namespace(|| o[1].str()), &ops[k..], v, depth + 1),
                }
            }
            "alloc" | "input" | "enf" => {
                if k % 2 == 0 {
                    let _ = build::<S, &mut CS>(&mut &mut *cs, o, v);
                } else {
                    let _ = build(cs, o, v);
                }
            }
            _ => (),
        }
    }
    k
}

fn underflow(ops: &[J]) -> bool {
    let mut d = 0;
    for o in ops {
        match o.arr()[0].str() {
            "push" => d += 1,
            "pop" if d == 0 => return true,
            "pop" => d -= 1,
            _ => (),
        }
    }
    false
}

fn terms<S: PrimeField>(l: &Lc<S>) -> J {
    J::Arr(
        l.iter()
            .map(|(a, i, c)| J::Arr(vec![(*a as usize).into(), (*i).into(), small(*c).into()]))
            .collect(),
    )
}

fn case<S: PrimeField>(ops: &[J], mode: &str) -> J {
    let mut log = vec![];
    let mut cons = vec![];
    let (mut nin, mut naux) = (0, 0);
    let r = guard(|| match mode {
        "raw" => raw::<S>(ops, &mut log),
        "scoped" => {
            let mut cs = T::<S>::new();
            let mut v = Vars::new::<S, _>(&cs);
            scoped(&mut cs, ops, &mut v, &mut log);
        }
        _ => {
            let mut cs = Rec::<S>::new(Mode::Witness);
            let mut v = Vars::new::<S, _>(&cs);
            other::<S, _>(&mut cs, ops, &mut v, 0);
            assert!(cs.depth == 0 && !cs.underflow);
            nin = cs.inputs.len();
            naux = cs.aux.len();
            cons = cs
                .cons
                .iter()
                .map(|c| J::Arr(vec![terms(&c.0), terms(&c.1), terms(&c.2)]))
                .collect();
        }
    });
    obj! {"mode"=>mode, "q"=>Q, "ops"=>J::Arr(ops.to_vec()), "log"=>J::Arr(log), "panic"=>r.is_err(),
    "cons"=>J::Arr(cons), "nin"=>nin, "naux"=>naux, "vars"=>J::Arr(vec![])}
}

/// Variants of a history, for comparing hashes.
fn variants(ops: &[J], rng: &mut Rng) -> Vec<Vec<J>> {
    // The legal part only: stops at the first refusal.
    let mut log = vec![];
    raw::<Fp<13>>(ops, &mut log);
    let n = log.iter().filter(|e| !e.get("r").boolean()).count();
    let base: Vec<J> = ops[..n]
        .iter()
        .filter(|o| !matches!(o.arr()[0].str(), "get" | "getin" | "verify"))
        .cloned()
        .collect();
    let is = |o: &J, k: &str| o.arr()[0].str() == k;
    let with = |o: &J, i: usize, x: J| {
        let mut a = o.arr().to_vec();
        a[i] = x;
        J::Arr(a)
    };
    let mut res = vec![base.clone()];
    // flat and renamed
    res.push(
        base.iter()
            .enumerate()
            .filter(|(_, o)| !is(o, "push") && !is(o, "pop") && !is(o, "set"))
            .map(|(i, o)| with(o, 1, J::from(format!("q{}", i).as_str())))
            .collect(),
    );
    // other values
    res.push(
        base.iter()
            .map(|o| {
                if (is(o, "alloc") || is(o, "input")) && o.arr()[2].int() >= 0 {
                    with(o, 2, J::Int((o.arr()[2].int() + 1) % Q as i64))
                } else {
                    o.clone()
                }
            })
            .collect(),
    );
    // terms in another order, split, and with zero coefficients
    let spread = |j: &J| {
        let mut ts = vec![];
        for t in j.arr().iter().rev() {
            let t = t.arr();
            let c = t[2].int();
            for x in if c > 1 { vec![c - 1, 0, 1] } else { vec![0, c] } {
                ts.push(J::Arr(vec![t[0].clone(), t[1].clone(), J::Int(x)]));
            }
        }
        ts.push(J::Arr(vec![J::Int(0), J::Int(0), J::Int(0)]));
        J::Arr(ts)
    };
    res.push(
        base.iter()
            .map(|o| {
                if is(o, "enf") {
                    let a = o.arr();
                    J::Arr(vec![
                        a[0].clone(),
                        a[1].clone(),
                        spread(&a[2]),
                        spread(&a[3]),
                        spread(&a[4]),
                    ])
                } else {
                    o.clone()
                }
            })
            .collect(),
    );
    let enfs: Vec<usize> = (0..base.len()).filter(|i| is(&base[*i], "enf")).collect();
    if let (Some(first), Some(last)) = (enfs.first(), enfs.last()) {
        let e = *rng.pick(&enfs);
        let slot = 2 + rng.below(3) as usize;
        // another coefficient
        let mut b = base.clone();
        let mut ts = b[e].arr()[slot].arr().to_vec();
        ts.push(J::Arr(vec![J::Int(0), J::Int(0), J::Int(1)]));
        b[e] = with(&b[e], slot, J::Arr(ts));
        res.push(b);
        // sides swapped
        for (x, y) in [(2, 3), (3, 4)] {
            let mut b = base.clone();
            let a = b[e].arr().to_vec();
            b[e] = with(&with(&b[e], x, a[y].clone()), y, a[x].clone());
            res.push(b);
        }
        // one less
        let mut b = base.clone();
        b.remove(*last);
        res.push(b);
        // first two exchanged
        if first != last {
            let mut b = base.clone();
            let (x, y) = (b[enfs[0]].clone(), b[enfs[1]].clone());
            let (nx, ny) = (x.arr()[1].clone(), y.arr()[1].clone());
            // constraints may only refer to what exists, so both go last
            b.remove(enfs[1]);
            b.remove(enfs[0]);
            let open = b.iter().filter(|o| is(o, "push")).count() as i64
                - b.iter().filter(|o| is(o, "pop")).count() as i64;
            for _ in 0..open.max(0) {
                b.push(J::Arr(vec![J::from("pop")]));
            }
            let _ = (nx, ny);
            let mut c = b.clone();
            b.push(with(&y, 1, J::from("u")));
            b.push(with(&x, 1, J::from("v")));
            c.push(with(&x, 1, J::from("u")));
            c.push(with(&y, 1, J::from("v")));
            res.push(b);
            res.push(c);
        }
        // another variable of the other kind
        let ts = base[e].arr()[slot].arr();
        if !ts.is_empty() {
            let t = ts[0].arr();
            let aux = base[..e]
                .iter()
                .filter(|o| is(o, "alloc") && o.arr()[2].int() >= 0)
                .count();
            let inp = 1 + base[..e]
                .iter()
                .filter(|o| is(o, "input") && o.arr()[2].int() >= 0)
                .count();
            let i = t[1].us();
            let (k, ok) = if t[0].int() == 0 {
                (1, i < aux)
            } else {
                (0, i < inp)
            };
            if ok {
                let mut new = ts.to_vec();
                new[0] = J::Arr(vec![J::Int(k), t[1].clone(), t[2].clone()]);
                let mut b = base.clone();
                b[e] = with(&b[e], slot, J::Arr(new));
                res.push(b);
            }
        }
    }
    // a last constraint over several variables of each kind, and all that differ
    // from it in one term: another index, the other kind, another coefficient,
    // another side
    {
        let mut b = base.clone();
        let count = |b: &[J], k: &str| {
            b.iter()
                .filter(|o| is(o, k) && o.arr()[2].int() >= 0)
                .count()
        };
        let (na, ni) = (count(&b, "alloc"), count(&b, "input") + 1);
        for k in 0..3 {
            for kind in ["alloc", "input"] {
                let name = format!("w {} {}", kind, k);
                b.push(J::Arr(vec![
                    J::from(kind),
                    J::from(name.as_str()),
                    J::Int((k + 2) as i64),
                ]));
            }
        }
        let term = |k: usize, i: usize, c: i64| {
            J::Arr(vec![J::Int(k as i64), J::Int(i as i64), J::Int(c)])
        };
        let coef: Vec<i64> = (0..6).map(|_| 1 + rng.below(7) as i64).collect();
        let lcs: Vec<Vec<(usize, usize, i64)>> = vec![
            vec![(0, ni, coef[0]), (1, na + 1, coef[1])],
            vec![(1, na, coef[2]), (0, ni + 1, coef[3])],
            vec![(0, 0, coef[4]), (1, na + 1, coef[5])],
        ];
        let enf = |lcs: &[Vec<(usize, usize, i64)>]| {
            let mut a = vec![J::from("enf"), J::from("wide")];
            for lc in lcs {
                a.push(J::Arr(
                    lc.iter().map(|(k, i, c)| term(*k, *i, *c)).collect(),
                ));
            }
            J::Arr(a)
        };
        let mut keep = |lcs: &[Vec<(usize, usize, i64)>]| {
            let mut v = b.clone();
            v.push(enf(lcs));
            res.push(v);
        };
        keep(&lcs);
        for s in 0..3 {
            for t in 0..lcs[s].len() {
                let (k, i, c) = lcs[s][t];
                for (k2, i2, c2) in [
                    (k, i + 1, c),
                    (k, if i > 0 { i - 1 } else { i + 2 }, c),
                    (k, if k == 0 { ni + 2 } else { na + 2 }, c),
                    (1 - k, if k == 0 { na } else { ni }, c),
                    (1 - k, i.min(if k == 0 { na } else { ni } + 2), c),
                    (k, i, c + 1),
                    (k, i, c + 256),
                    (k, i, c + 65536),
                ] {
                    let mut l = lcs.clone();
                    l[s][t] = (k2, i2, c2);
                    keep(&l);
                }
                let mut l = lcs.clone();
                let x = l[s].remove(t);
                keep(&l);
                l[(s + 1) % 3].push(x);
                keep(&l);
            }
        }
    }
    // one more variable
    for kind in ["alloc", "input"] {
        let mut b = base.clone();
        b.push(J::Arr(vec![J::from(kind), J::from("more"), J::Int(1)]));
        res.push(b);
    }
    res
}
fn hashes(ops: &[J], rng: &mut Rng) -> J {
    let mut vs = vec![];
    let r = guard(|| {
        for b in variants(ops, rng) {
            let mut cs = T::<Scalar>::new();
            let mut v = Vars::new::<Scalar, _>(&cs);
            for o in &b {
                let o = o.arr();
                match o[0].str() {
                    "alloc" | "input" | "enf" => {
                        let _ = build(&mut cs, o, &mut v);
                    }
                    "push" => cs.push_namespace(|| o[1].str()),
                    "pop" => cs.pop_namespace(),
                    _ => {
                        edit(&mut cs, o);
                    }
                }
            }
            let h = cs.hash();
            // it is a function, and printing goes through
            let again = cs.hash() == h && cs.pretty_print() == cs.pretty_print();
            vs.push(obj! {"ops"=>J::Arr(b), "hash"=>h.as_str(), "again"=>again});
        }
    });
    obj! {"mode"=>"hash", "q"=>Q, "ops"=>J::Arr(vec![]), "log"=>J::Arr(vec![]), "panic"=>r.is_err(),
    "cons"=>J::Arr(vec![]), "nin"=>0usize, "naux"=>0usize, "vars"=>J::Arr(vs)}
}

/// tcs run OUT HISTORIES HASHES PART OF
fn main() {
    quiet_panics();
    let mut out = Out::new(&arg(2));
    let progs = json::read_lines(&arg(3));
    let nh: usize = arg(4).parse().unwrap();
    let part: usize = arg(5).parse().unwrap();
    let of: usize = arg(6).parse().unwrap();
    for (i, pr) in progs.iter().enumerate() {
        if i % of != part {
            continue;
        }
        let ops = pr.arr();
        let mut rng = Rng::new(seed() ^ ((i as u64) << 8));
        out.put(&case::<Fp<13>>(ops, "raw"));
        if !underflow(ops) {
            out.put(&case::<Fp<13>>(ops, "scoped"));
        }
        out.put(&case::<Fp<13>>(ops, "rec"));
        if i % 16 < nh && ops.len() > 4 {
            out.put(&hashes(ops, &mut rng));
        }
    }
}
