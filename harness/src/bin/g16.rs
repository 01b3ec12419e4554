use conf::circ::*;
use conf::g16::*;
use conf::rng::Rng;
use conf::toy::Fp;
use conf::util::*;
use conf::{json, obj, J};
use groth16::*;

fn random_cases<const P: u64>(
    out: &mut Out,
    rng: &mut Rng,
    dims: &[(usize, usize, usize)],
    tamper: bool,
) {
    for &(i, a, c) in dims {
        let prog = Prog::random(rng, P, i, a, c);
        let t = Tox::random(rng, P);
        let (r, s) = (rng.below(P), rng.below(P));
        out.put(&case::<P>(&prog, &t, r, s, rng, tamper));
    }
}

fn main() {
    quiet_panics();
    let mode = arg(1);
    let mut out = Out::new(&arg(2));
    let mut rng = Rng::new(seed() * 1000 + mode.len() as u64);
    const P: u64 = 40961;
    match mode.as_str() {
        // Programs made by the specification.
        "run" => {
            let (part, parts): (usize, usize) = (arg(4).parse().unwrap(), arg(5).parse().unwrap());
            for (i, j) in json::read_lines(&arg(3)).iter().enumerate() {
                if i % parts != part {
                    continue;
                }
                let prog = Prog::parse(j.get("ops"));
                let t = Tox::parse(j.get("tox"));
                let full = i % 8 == part % 8;
                out.put(&case::<P>(
                    &prog,
                    &t,
                    j.get("r").us() as u64,
                    j.get("s").us() as u64,
                    &mut rng,
                    full,
                ));
            }
        }
        "unsat" => {
            for (i, j) in json::read_lines(&arg(3)).iter().enumerate() {
                let prog = Prog::parse(j.get("ops"));
                if i % 3 == 0 {
                    if let Some(e) = unsat::<P>(&prog, &mut rng) {
                        out.put(&e);
                    }
                }
            }
            for k in 0..tier(40, 200) {
                let prog = Prog::random(&mut rng, P, k % 4, 1 + k % 7, 1 + k % 9);
                if let Some(e) = unsat::<P>(&prog, &mut rng) {
                    out.put(&e);
                }
            }
        }
        // Random programs whose dimensions straddle domain and window boundaries.
        "rand" => {
            let which = arg(3);
            let mut dims = vec![];
            match which.as_str() {
                "small" => {
                    for i in 0..4 {
                        for a in 0..5 {
                            for c in [0, 1, 2, 3, 4, 5, 7, 8] {
                                dims.push((i, a, c));
                            }
                        }
                    }
                }
                _ => {
                    dims = vec![
                        (1, 6, 13),
                        (1, 6, 14),
                        (1, 6, 15),
                        (0, 10, 31),
                        (0, 10, 30),
                        (3, 31, 40),
                        (2, 32, 20),
                        (31, 3, 5),
                        (32, 2, 4),
                        (30, 33, 34),
                        (1, 54, 60),
                        (2, 55, 62),
                        (0, 56, 64),
                        (1, 20, 126),
                        (3, 12, 130),
                    ];
                    if thorough() {
                        dims.extend([
                            (5, 148, 150),
                            (2, 149, 260),
                            (1, 150, 255),
                            (60, 70, 100),
                            (149, 3, 30),
                            (0, 200, 511),
                        ]);
                    }
                }
            }
            let n = tier(1, 4);
            for _ in 0..n {
                random_cases::<P>(&mut out, &mut rng, &dims, which == "small");
                if which == "small" {
                    let d: Vec<_> = dims.iter().copied().step_by(5).collect();
                    random_cases::<12289>(&mut out, &mut rng, &d, true);
                    random_cases::<7681>(&mut out, &mut rng, &d, false);
                    random_cases::<257>(&mut out, &mut rng, &d, true);
                    random_cases::<97>(&mut out, &mut rng, &d, false);
                    random_cases::<17>(&mut out, &mut rng, &dims, false);
                }
            }
        }
        // Degenerate toxic waste and unconstrained variables.
        "edge" => {
            for k in 0..tier(60, 300) {
                let mut prog = Prog::random(&mut rng, P, k % 3, k % 5, k % 6);
                let mut t = Tox::random(&mut rng, P);
                match k % 6 {
                    0 => t.gamma = 0,
                    1 => t.delta = 0,
                    2 => {
                        // A variable that nothing mentions, or only with terms that cancel.
                        prog.ops.push(Op::Aux(5));
                        let n = prog.aux().len() - 1;
                        if k % 4 == 0 {
                            prog.ops.push(Op::Enf(
                                vec![(true, n, 1), (true, n, P - 1)],
                                vec![(false, 0, 1)],
                                vec![(true, n, 0)],
                            ));
                        }
                    }
                    3 => {
                        // Only in C; only in B; or in A with terms that cancel and in C.
                        prog.ops.push(Op::Aux(5));
                        let n = prog.aux().len() - 1;
                        let x = (true, n, 1);
                        match (k / 6) % 5 {
                            0 => prog.ops.push(Op::Enf(
                                vec![(false, 0, 1)],
                                vec![(false, 0, 5)],
                                vec![x],
                            )),
                            1 => prog.ops.push(Op::Enf(
                                vec![(false, 0, 1)],
                                vec![x],
                                vec![(false, 0, 5)],
                            )),
                            2 => prog.ops.push(Op::Enf(
                                vec![x],
                                vec![(false, 0, 1)],
                                vec![(false, 0, 5)],
                            )),
                            3 => prog.ops.push(Op::Enf(
                                vec![x, (true, n, P - 1), (false, 0, 1)],
                                vec![(false, 0, 5)],
                                vec![x],
                            )),
                            _ => prog.ops.push(Op::Enf(
                                vec![(false, 0, 1)],
                                vec![(true, n, 3), (false, 0, 5), (true, n, P - 3)],
                                vec![x],
                            )),
                        }
                    }
                    4 => t.gamma = t.delta,
                    _ => {
                        t.g1 = 1;
                        t.g2 = 1;
                        t.alpha = 1;
                    }
                }
                let (r, s) = match k % 5 {
                    0 => (0, 0),
                    1 => (0, 7),
                    2 => (7, 0),
                    _ => (rng.below(P), rng.below(P)),
                };
                out.put(&case::<P>(&prog, &t, r, s, &mut rng, false));
            }
        }
        // All (r, s) for two witnesses of one statement: the two sets of proofs coincide.
        "zk" => {
            const Q: u64 = 17;
            for k in 0..tier(4, 12) {
                // x * x = y (public): witnesses x and -x. Extra rows vary the dimensions.
                let x = 3 + k as u64;
                let mk = |x: u64| {
                    let mut ops = vec![
                        Op::Inp(x * x % Q),
                        Op::Aux(x % Q),
                        Op::Enf(vec![(true, 0, 1)], vec![(true, 0, 1)], vec![(false, 1, 1)]),
                    ];
                    for _ in 0..(k % 3) {
                        ops.push(Op::Enf(
                            vec![(false, 0, 2)],
                            vec![(false, 1, 1)],
                            vec![(false, 1, 2)],
                        ));
                    }
                    Prog { ops }
                };
                let (p1, p2) = (mk(x % Q), mk(Q - x % Q));
                let t = Tox::random(&mut rng, Q);
                let params = match generate::<Q>(&p1, &t) {
                    Ok(p) => p,
                    Err(_) => continue,
                };
                let mut rows = vec![vec![], vec![]];
                let mut rnd = vec![];
                for r in 0..Q {
                    for s in 0..Q {
                        for (w, p) in [&p1, &p2].iter().enumerate() {
                            if let Ok(pf) = prove(p, &params, r, s).0 {
                                rows[w].push(J::from(vec![pf.a.0, pf.b.0, pf.c.0]));
                            }
                        }
                        if let Ok(pf) = scripted_random(&p1, &params, vec![r, s]) {
                            rnd.push(J::from(vec![pf.a.0, pf.b.0, pf.c.0]));
                        }
                    }
                }
                let fixed = prove(&p1, &params, 0, 0).0.is_ok();
                out.put(
                    &obj! {"p"=>Q,"g"=>3,"ops"=>p1.json(),"tox"=>t.json(),"ok"=>fixed,
                    "w1"=>J::Arr(rows[0].clone()),"w2"=>J::Arr(rows[1].clone()),"rnd"=>J::Arr(rnd)},
                );
            }
        }
        // Toxic waste drawn from a generator: what is drawn is independent.
        "randgen" => {
            for k in 0..tier(60, 300) {
                let prog = Prog::random(&mut rng, P, 1, 3, 4);
                let mut src = Rng::new(seed() * 7919 + k);
                let res = guard(|| {
                    generate_random_parameters::<conf::toy::Toy<P>, _, _>(
                        Run::shape(&prog),
                        &mut src,
                    )
                });
                if let Ok(Ok(p)) = res {
                    let pf = guard(|| {
                        create_random_proof::<conf::toy::Toy<P>, _, _, _>(
                            Run::honest(&prog),
                            &p,
                            &mut src,
                        )
                    });
                    let inp: Vec<u64> = prog.inputs()[1..].to_vec();
                    let res = match &pf {
                        Ok(Ok(pf)) => verify(&p.vk, pf, &inp),
                        Ok(Err(e)) => err_name(e).to_string(),
                        Err(m) => format!("panic: {}", m),
                    };
                    out.put(&obj! {"p"=>P,"g"=>Fp::<P>(3),"ops"=>prog.json(),"vk"=>jvk(&p.vk),"h"=>p.h.to_vec(),
                        "l"=>p.l.to_vec(), "a"=>p.a.to_vec(), "b_g1"=>p.b_g1.to_vec(), "b_g2"=>p.b_g2.to_vec(), "res"=>res});
                }
            }
        }
        m => panic!("harness: mode {}", m),
    }
}
