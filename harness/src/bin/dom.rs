//! Evaluation domains (C11, C12).
use bellman::domain::{EvaluationDomain, Group, Point, Scalar};
use bellman::multicore::Worker;
use conf::rng::Rng;
use conf::toy::*;
use conf::util::*;
use conf::{json, obj, J};
use ff::PrimeField;

/// The two kinds of elements, as numbers.
trait El<const P: u64>: Group<Fp<P>> {
    fn mk(v: u64) -> Self;
    fn val(&self) -> u64;
}
impl<const P: u64> El<P> for Scalar<Fp<P>> {
    fn mk(v: u64) -> Self {
        Scalar(Fp::new(v))
    }
    fn val(&self) -> u64 {
        self.0 .0
    }
}
impl<const P: u64> El<P> for Point<G1<P>> {
    fn mk(v: u64) -> Self {
        Point(G1(v % P))
    }
    fn val(&self) -> u64 {
        self.0 .0
    }
}
type Dom<const P: u64, T> = EvaluationDomain<Fp<P>, T>;

fn vals<const P: u64, T: El<P>>(d: &Dom<P, T>) -> Vec<u64> {
    d.as_ref().iter().map(|x| x.val()).collect()
}
fn random_vec(rng: &mut Rng, p: u64, n: usize) -> Vec<u64> {
    (0..n)
        .map(|_| match rng.below(8) {
            0 => 0,
            1 => 1,
            2 => p - 1,
            _ => rng.below(p),
        })
        .collect()
}

fn history<const P: u64, T: El<P>>(v: Vec<u64>, ops: &[String], rng: &mut Rng) -> J {
    let worker = Worker::new();
    let g = Fp::<P>::MULTIPLICATIVE_GENERATOR;
    let head = |ev: Vec<J>| obj! {"p"=>P,"g"=>g,"ev"=>ev};
    let made = guard(|| Dom::<P, T>::from_coeffs(v.iter().map(|x| T::mk(*x)).collect()));
    let mut d = match made {
        Ok(Ok(d)) => d,
        Ok(Err(e)) => return head(vec![obj! {"op"=>"new","v"=>v,"res"=>err_name(&e)}]),
        Err(m) => {
            return head(vec![
                obj! {"op"=>"new","v"=>v,"res"=>format!("panic {}", m)},
            ])
        }
    };
    let mut ev = vec![obj! {"op"=>"new","v"=>v,"res"=>"ok","out"=>vals(&d)}];
    let n = d.as_ref().len();
    for o in ops {
        let c = rng.below(P);
        let i = rng.below(n as u64) as usize;
        let short = n / 2 + 1 + rng.below((n - n / 2) as u64) as usize;
        let y = random_vec(rng, P, short.min(n));
        let mut e = obj! {"op"=>o.clone()};
        let res = guard(|| match o.as_str() {
            "fft" => d.fft(&worker),
            "ifft" => d.ifft(&worker),
            "coset_fft" => d.coset_fft(&worker),
            "icoset_fft" => d.icoset_fft(&worker),
            "dist" => d.distribute_powers(&worker, Fp(c)),
            "div" => d.divide_by_z_on_coset(&worker),
            "mul" => {
                let y = EvaluationDomain::from_coeffs(y.iter().map(|x| Scalar(Fp(*x))).collect())
                    .map_err(|_| ())
                    .unwrap();
                d.mul_assign(&worker, &y)
            }
            "sub" => {
                let y = Dom::<P, T>::from_coeffs(y.iter().map(|x| T::mk(*x)).collect())
                    .map_err(|_| ())
                    .unwrap();
                d.sub_assign(&worker, &y)
            }
            "set" => d.as_mut()[i] = T::mk(c),
            "z" => {}
            m => panic!("harness: {}", m),
        });
        match o.as_str() {
            "dist" => e.push("c", c),
            "mul" | "sub" => e.push("y", y),
            "set" => {
                e.push("c", c);
                e.push("i", i);
            }
            "z" => {
                // Evaluated aside: the vector is as before.
                let x = if i % 2 == 0 { c } else { 1 };
                ev.push(obj! {"op"=>"z","n"=>n,"c"=>x,"out"=>guard(|| d.z(&Fp(x)).0 as i64).unwrap_or(-1)});
            }
            _ => {}
        }
        if res.is_err() {
            e.push("out", vec![-1i64]);
            ev.push(e);
            return head(ev);
        }
        e.push("out", vals(&d));
        if o == "z" {
            // Every event but "z" carries the vector; go on from a copy of it.
            ev.push(obj! {"op"=>"new","v"=>vals(&d),"res"=>"ok","out"=>vals(&d)});
        } else {
            ev.push(e);
        }
    }
    // into_coeffs returns the same vector.
    let last = vals(&d);
    let out: Vec<u64> = d.into_coeffs().iter().map(|x| x.val()).collect();
    ev.push(obj! {"op"=>"new","v"=>last,"res"=>"ok","out"=>out});
    head(ev)
}

fn quotient<const P: u64>(n: usize, rng: &mut Rng) -> J {
    let worker = Worker::new();
    let a = random_vec(rng, P, n);
    let b = random_vec(rng, P, n);
    let mk = |v: Vec<u64>| {
        EvaluationDomain::<Fp<P>, _>::from_coeffs(
            v.into_iter().map(|x| Scalar(Fp::<P>(x))).collect(),
        )
        .map_err(|_| ())
        .unwrap()
    };
    let c: Vec<u64> = a.iter().zip(&b).map(|(x, y)| x * y % P).collect();
    let h = guard(|| {
        let (mut da, mut db, mut dc) = (mk(a.clone()), mk(b.clone()), mk(c));
        for d in [&mut da, &mut db, &mut dc] {
            d.ifft(&worker);
            d.coset_fft(&worker);
        }
        da.mul_assign(&worker, &db);
        da.sub_assign(&worker, &dc);
        da.divide_by_z_on_coset(&worker);
        da.icoset_fft(&worker);
        da.into_coeffs()
            .iter()
            .map(|x| x.0 .0)
            .collect::<Vec<u64>>()
    });
    obj! {"p"=>P,"g"=>Fp::<P>::MULTIPLICATIVE_GENERATOR,"ev"=>vec![obj!{"op"=>"quot","a"=>a,"b"=>b,"h"=>h.unwrap_or_default()}]}
}

/// Which lengths a field accepts.
fn limits<const P: u64>(lens: &[usize]) -> J {
    let mut ev = vec![];
    for n in lens {
        for kind in 0..2 {
            let r = if kind == 0 {
                guard(|| {
                    EvaluationDomain::<Fp<P>, _>::from_coeffs(vec![Scalar(Fp::<P>(1)); *n])
                        .map(|d| vals::<P, _>(&d))
                })
            } else {
                guard(|| {
                    EvaluationDomain::<Fp<P>, _>::from_coeffs(vec![Point(G1::<P>(1)); *n])
                        .map(|d| vals::<P, _>(&d))
                })
            };
            ev.push(match r {
                Ok(Ok(v)) => {
                    let zeros = v[..*n].iter().all(|x| *x == 1) && v[*n..].iter().all(|x| *x == 0);
                    obj! {"op"=>"len","n"=>*n,"res"=>"ok","m"=>v.len(),"zeros"=>zeros}
                }
                Ok(Err(e)) => obj! {"op"=>"len","n"=>*n,"res"=>err_name(&e)},
                Err(m) => obj! {"op"=>"len","n"=>*n,"res"=>format!("panic {}", m)},
            });
        }
    }
    obj! {"p"=>P,"g"=>Fp::<P>::MULTIPLICATIVE_GENERATOR,"ev"=>ev}
}

fn one<const P: u64>(v: Vec<u64>, kind: &str, ops: &[String], rng: &mut Rng, out: &mut Out) {
    out.put(&if kind == "s" {
        history::<P, Scalar<Fp<P>>>(v, ops, rng)
    } else {
        history::<P, Point<G1<P>>>(v, ops, rng)
    });
}

/// Large domains, some places of the result.
const W: u64 = 786433;
fn spot<T: El<W>>(op: &str, n: usize, rng: &mut Rng) -> J {
    let worker = Worker::new();
    let transform = op.contains("fft");
    // Few entries: cheap to judge at many places.
    let mut few: Vec<usize> = (0..if transform { 10 } else { 2000 })
        .map(|_| rng.below(n as u64) as usize)
        .chain([0, 1, n / 2, n - 2, n - 1])
        .collect();
    few.sort_unstable();
    few.dedup();
    let mut v = vec![0; n];
    for i in &few {
        v[*i] = 1 + rng.below(W - 1);
    }
    let c = rng.below(W);
    let y = if op == "mul" || op == "sub" {
        random_vec(rng, W, n)
    } else {
        vec![]
    };
    let r = guard(|| {
        let mut d = Dom::<W, T>::from_coeffs(v.iter().map(|x| T::mk(*x)).collect())
            .map_err(|_| ())
            .unwrap();
        match op {
            "fft" => d.fft(&worker),
            "ifft" => d.ifft(&worker),
            "coset_fft" => d.coset_fft(&worker),
            "icoset_fft" => d.icoset_fft(&worker),
            "dist" => d.distribute_powers(&worker, Fp(c)),
            "div" => d.divide_by_z_on_coset(&worker),
            "mul" => {
                let y = EvaluationDomain::from_coeffs(y.iter().map(|x| Scalar(Fp(*x))).collect())
                    .map_err(|_| ())
                    .unwrap();
                d.mul_assign(&worker, &y)
            }
            "sub" => {
                let y = Dom::<W, T>::from_coeffs(y.iter().map(|x| T::mk(*x)).collect())
                    .map_err(|_| ())
                    .unwrap();
                d.sub_assign(&worker, &y)
            }
            _ => {}
        }
        d.into_coeffs()
            .iter()
            .map(|x| x.val())
            .collect::<Vec<u64>>()
    });
    let (res, out) = match r {
        Ok(v) => ("ok", v),
        Err(_) => ("panic", vec![]),
    };
    let m = out.len();
    let mut at = vec![];
    if m > 0 {
        at.extend([0, 1, m / 2 - 1, m / 2, m - 1]);
        at.extend((0..40).map(|_| rng.below(m as u64) as usize));
        if !transform {
            at.extend(few.iter().filter(|i| **i < m));
        }
    } else {
        at.push(0);
    }
    let none = |i: &usize| out.get(*i).map(|x| *x as i64).unwrap_or(-1);
    let got: Vec<i64> = at.iter().map(none).collect();
    let pairs: Vec<J> = few
        .iter()
        .map(|i| J::Arr(vec![J::from(*i), J::from(v[*i])]))
        .collect();
    let ys: Vec<u64> = at.iter().map(|i| y.get(*i).copied().unwrap_or(0)).collect();
    let es: Vec<u64> = at.iter().map(|i| v.get(*i).copied().unwrap_or(0)).collect();
    obj! {"op"=>op,"n"=>n,"m"=>m,"c"=>c,"v"=>if transform { J::Arr(pairs) } else { J::Arr(vec![]) },"es"=>es,"ys"=>ys,"res"=>res,"at"=>at,"out"=>got}
}

fn main() {
    quiet_panics();
    let mode = arg(1);
    let mut out = Out::new(&arg(2));
    let mut rng = Rng::new(seed() * 77 + mode.len() as u64);
    match mode.as_str() {
        "ops" => {
            let (part, parts): (usize, usize) = (arg(4).parse().unwrap(), arg(5).parse().unwrap());
            for (i, j) in json::read_lines(&arg(3)).iter().enumerate() {
                if i % parts != part {
                    continue;
                }
                let n = j.get("n").us();
                let kind = j.get("kind").str().to_string();
                let ops: Vec<String> = j
                    .get("ops")
                    .arr()
                    .iter()
                    .map(|x| x.str().to_string())
                    .collect();
                match (i / parts) % 4 {
                    0 => one::<40961>(
                        random_vec(&mut rng, 40961, n),
                        &kind,
                        &ops,
                        &mut rng,
                        &mut out,
                    ),
                    1 => one::<12289>(
                        random_vec(&mut rng, 12289, n),
                        &kind,
                        &ops,
                        &mut rng,
                        &mut out,
                    ),
                    2 => one::<257>(
                        random_vec(&mut rng, 257, n),
                        &kind,
                        &ops,
                        &mut rng,
                        &mut out,
                    ),
                    _ => one::<97>(random_vec(&mut rng, 97, n), &kind, &ops, &mut rng, &mut out),
                }
            }
        }
        // All unit vectors through all transforms: complete for linear code.
        "basis" => {
            let all: Vec<String> = [
                "fft",
                "ifft",
                "ifft",
                "coset_fft",
                "icoset_fft",
                "icoset_fft",
                "coset_fft",
                "fft",
            ]
            .iter()
            .map(|s| s.to_string())
            .collect();
            for e in 0..tier(6, 8) {
                let n = 1usize << e;
                for k in 0..n {
                    let mut v = vec![0; n];
                    v[k] = 1;
                    one::<40961>(
                        v.clone(),
                        if k % 2 == 0 { "s" } else { "pt" },
                        &all,
                        &mut rng,
                        &mut out,
                    );
                    if e < 4 {
                        one::<97>(v.clone(), "s", &all, &mut rng, &mut out);
                        one::<12289>(v, "pt", &all, &mut rng, &mut out);
                    }
                }
            }
        }
        "big" => {
            let f = |v: &[&str]| v.iter().map(|s| s.to_string()).collect::<Vec<_>>();
            for n in [
                127, 128, 129, 200, 256, 300, 512, 777, 1024, 1025, 2048, 4095, 4096,
            ] {
                let v = random_vec(&mut rng, 40961, n);
                let ops = match n % 3 {
                    0 => f(&["fft", "icoset_fft"]),
                    1 => f(&["coset_fft", "ifft"]),
                    _ => f(&["ifft", "coset_fft"]),
                };
                one::<40961>(
                    v,
                    if n % 2 == 0 { "s" } else { "pt" },
                    &ops,
                    &mut rng,
                    &mut out,
                );
            }
            one::<12289>(
                random_vec(&mut rng, 12289, 2048),
                "s",
                &f(&["fft", "div", "icoset_fft"]),
                &mut rng,
                &mut out,
            );
        }
        "spot" => {
            let which = arg(3);
            let ops: &[&str] = if which == "C11" {
                &["fft", "ifft", "coset_fft", "icoset_fft"]
            } else {
                &["dist", "div", "mul", "sub", "new"]
            };
            let sizes: &[usize] = if thorough() {
                &[5000, 8192, 8193, 16384, 30000, 40000, 65536, 65537, 131072]
            } else {
                &[4097, 8192, 10000, 20000, 32769, 65537, 131072]
            };
            for n in sizes {
                for (i, op) in ops.iter().enumerate() {
                    out.put(&if (i + n) % 2 == 0 {
                        spot::<Scalar<Fp<W>>>(op, *n, &mut rng)
                    } else {
                        spot::<Point<G1<W>>>(op, *n, &mut rng)
                    });
                }
            }
        }
        "lim" => {
            out.put(&limits::<3>(&[0, 1, 2, 3, 4, 5, 9]));
            out.put(&limits::<5>(&[0, 1, 2, 3, 4, 5, 9]));
            out.put(&limits::<7>(&[0, 1, 2, 3, 4, 5, 9]));
            out.put(&limits::<17>(&(0..40).collect::<Vec<_>>()));
            out.put(&limits::<97>(&(0..70).collect::<Vec<_>>()));
            out.put(&limits::<193>(&(0..140).collect::<Vec<_>>()));
            out.put(&limits::<257>(&[
                0, 1, 64, 65, 127, 128, 129, 130, 255, 256, 257, 300, 1000,
            ]));
            out.put(&limits::<40961>(&[
                0, 1, 3, 1000, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193,
                20000,
            ]));
            for e in 0..tier(6, 7) {
                for _ in 0..tier(3, 8) {
                    out.put(&quotient::<40961>(1 << e, &mut rng));
                    out.put(&quotient::<12289>(1 << e, &mut rng));
                    if e < 5 {
                        out.put(&quotient::<97>(1 << e, &mut rng));
                    }
                    if e < 4 {
                        out.put(&quotient::<17>(1 << e, &mut rng));
                    }
                }
            }
            out.put(&quotient::<40961>(128, &mut rng));
            out.put(&quotient::<40961>(1024, &mut rng));
        }
        m => panic!("harness: mode {}", m),
    }
}
