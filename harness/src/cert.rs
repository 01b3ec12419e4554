//! Certificates that the variables of a constraint system are determined by the free ones
//! (checked by CertTrace.tla). The harness only proposes the order and the reason for each
//! variable; the specification checks them.
use crate::rec::{Lc, Rec};
use crate::{obj, J};
use ff::PrimeField;
use std::collections::{BTreeMap, BTreeSet};

/// |c| in binary and its sign, whichever of c and -c is shorter.
pub fn signed<S: PrimeField>(c: &S) -> (i64, Vec<usize>) {
    let bits = |c: &S| -> Vec<usize> {
        let r = c.to_repr();
        r.as_ref()
            .iter()
            .enumerate()
            .flat_map(|(i, b)| {
                (0..8)
                    .filter(move |j| b >> j & 1 == 1)
                    .map(move |j| 8 * i + j)
            })
            .collect()
    };
    let p = bits(c);
    let n = bits(&-*c);
    if p.last() <= n.last() {
        (1, p)
    } else {
        (-1, n)
    }
}

/// The signed digits of the non-adjacent form: a coefficient that mixes small multiples of
/// far apart powers of two keeps them apart.
pub fn naf<S: PrimeField>(c: &S) -> Vec<(i64, usize)> {
    let (sign, bits) = signed(c);
    let top = bits.last().map(|x| x + 2).unwrap_or(0);
    let mut d = vec![0i64; top + 1];
    for b in bits {
        d[b] = 1;
    }
    let mut o = vec![];
    for i in 0..top {
        // digit 1 followed by digit 1: -1 and a carry
        if d[i] == 2 {
            d[i] = 0;
            d[i + 1] += 1;
        } else if d[i] == 1 && d[i + 1] == 1 {
            o.push((-sign, i));
            d[i + 1] += 1;
        } else if d[i] == 1 {
            o.push((sign, i));
        }
    }
    if d[top] != 0 {
        o.push((sign, top));
    }
    o
}
pub struct Names {
    pub inp: Vec<usize>,
    pub aux: Vec<usize>,
    pub n: usize,
}
impl Names {
    pub fn new<S: PrimeField>(r: &Rec<S>) -> Names {
        let (mut inp, mut aux, mut n) = (vec![1], vec![], 1);
        for o in &r.order {
            match o {
                'i' => {
                    n += 1;
                    inp.push(n)
                }
                'a' => {
                    n += 1;
                    aux.push(n)
                }
                _ => (),
            }
        }
        Names { inp, aux, n }
    }
    /// Combined terms, variable 1 is ONE.
    pub fn terms<S: PrimeField>(&self, l: &Lc<S>) -> BTreeMap<usize, S> {
        let mut m: BTreeMap<usize, S> = BTreeMap::new();
        for (a, i, c) in l {
            let v = if *a { self.aux[*i] } else { self.inp[*i] };
            *m.entry(v).or_insert(S::ZERO) += c;
        }
        m.retain(|_, c| !c.is_zero_vartime());
        m
    }
    /// [variable, sign, exponent] per binary digit of each coefficient.
    pub fn json<S: PrimeField>(&self, l: &Lc<S>) -> J {
        let mut o = vec![];
        for (v, c) in self.terms(l) {
            let (s, e) = signed(&c);
            for x in e {
                o.push(J::Arr(vec![v.into(), s.into(), x.into()]));
            }
        }
        J::Arr(o)
    }
}

/// Splits a sum of boolean terms at the exponents that no carry can cross.
fn windows(ops: &[(usize, i64, usize)], top: usize) -> Option<Vec<usize>> {
    let mut hi = vec![0i64; top + 1];
    let mut lo = vec![0i64; top + 1];
    for (v, s, e) in ops {
        if *e > top {
            return None;
        }
        if *v == 1 || *s > 0 {
            hi[*e] += s;
        }
        if *v == 1 || *s < 0 {
            lo[*e] += s;
        }
    }
    let (mut h, mut l, mut starts) = (0i64, 0i64, vec![]);
    for e in 0..=top {
        if h == 0 && l == 0 {
            starts.push(e);
        }
        h = (h + hi[e]).div_euclid(2);
        l = (l + lo[e]).div_euclid(2);
    }
    if h == 0 && l == 0 {
        Some(starts)
    } else {
        None
    }
}

/// A linear equation that reads `ops = digits`: each power of two up to the top has one digit.
struct Digits {
    ops: Vec<(usize, i64, usize)>,
    digit: Vec<usize>,
    starts: Vec<usize>,
}
impl Digits {
    fn json(&self) -> (J, J) {
        (
            J::Arr(
                self.ops
                    .iter()
                    .map(|(v, s, e)| J::Arr(vec![(*v).into(), (*s).into(), (*e).into()]))
                    .collect(),
            ),
            J::Arr(
                self.digit
                    .iter()
                    .enumerate()
                    .map(|(e, v)| J::Arr(vec![(*v).into(), 1usize.into(), e.into()]))
                    .collect(),
            ),
        )
    }
}
/// One side of the equation has the digits and nothing else.
fn digits_aside<S: PrimeField>(nm: &Names, ops: &Lc<S>, dig: &Lc<S>) -> Option<Digits> {
    let mut at = BTreeMap::new();
    for (v, c) in nm.terms(dig) {
        let (s, e) = signed(&c);
        if v == 1 || s != 1 || e.len() != 1 || at.insert(e[0], v).is_some() {
            return None;
        }
    }
    if at.is_empty() || at.keys().enumerate().any(|(i, e)| i != *e) {
        return None;
    }
    let digit: Vec<usize> = at.values().cloned().collect();
    if digit.len() > S::CAPACITY as usize {
        return None;
    }
    // The terms one by one tell most about the carries; combined ones may have to do.
    let mut reps: Vec<Vec<(usize, i64, usize)>> = vec![];
    let one_by_one = |c: &S| {
        let (s, e) = signed(c);
        e.into_iter().map(move |e| (s, e)).collect::<Vec<_>>()
    };
    reps.push(
        ops.iter()
            .flat_map(|(a, i, c)| {
                let v = if *a { nm.aux[*i] } else { nm.inp[*i] };
                one_by_one(c).into_iter().map(move |(s, e)| (v, s, e))
            })
            .collect(),
    );
    for k in 0..2 {
        let mut o = vec![];
        for (v, c) in nm.terms(ops) {
            let d = if v == 1 || k == 0 {
                one_by_one(&c)
            } else {
                naf(&c)
            };
            o.extend(d.into_iter().map(|(s, e)| (v, s, e)));
        }
        reps.push(o);
    }
    reps.into_iter().find_map(|ops| {
        windows(&ops, digit.len() - 1).map(|starts| Digits {
            ops,
            digit: digit.clone(),
            starts,
        })
    })
}

/// Reads the linear equation `l = 0` as `ops = digits`, whatever the sides and the order of
/// its terms: the digits are fresh variables, one for each power of two up to the top, all of
/// one sign. A fresh variable may also be an operand at higher powers.
fn digits<S: PrimeField>(nm: &Names, l: &Lc<S>, fresh: &dyn Fn(usize) -> bool) -> Option<Digits> {
    let one_by_one = |c: &S| {
        let (s, e) = signed(c);
        e.into_iter().map(|e| (s, e)).collect::<Vec<_>>()
    };
    // The terms one by one tell most about the carries; combined ones may have to do.
    let var = |a: &bool, i: &usize| if *a { nm.aux[*i] } else { nm.inp[*i] };
    let raw: Vec<(usize, S)> = l.iter().map(|(a, i, c)| (var(a, i), *c)).collect();
    let all: Vec<(usize, S)> = nm.terms(l).into_iter().collect();
    let spread = |m: &[(usize, S)], k: usize| -> Vec<(usize, i64, usize)> {
        m.iter()
            .flat_map(|(v, c)| {
                let d = if k == 0 || (k == 1 && *v == 1) {
                    one_by_one(c)
                } else {
                    naf(c)
                };
                d.into_iter().map(|(s, e)| (*v, s, e)).collect::<Vec<_>>()
            })
            .collect()
    };
    let mut reps = vec![];
    for m in [&raw, &all] {
        for k in 0..3 {
            reps.push(spread(m, k));
        }
    }
    for rep in &reps {
        for sign in [-1i64, 1] {
            let (mut digit, mut used, mut taken) = (vec![], BTreeSet::new(), BTreeSet::new());
            let mut at: BTreeMap<usize, Vec<usize>> = BTreeMap::new();
            for (k, (v, s, e)) in rep.iter().enumerate() {
                if *v != 1 && *s == sign && fresh(*v) {
                    at.entry(*e).or_default().push(k);
                }
            }
            while let Some(ks) = at.get(&digit.len()) {
                match ks.iter().find(|k| !used.contains(&rep[**k].0)) {
                    Some(k) => {
                        used.insert(rep[*k].0);
                        taken.insert(*k);
                        digit.push(rep[*k].0);
                    }
                    None => break,
                }
            }
            if digit.is_empty() || digit.len() > S::CAPACITY as usize {
                continue;
            }
            let ops: Vec<(usize, i64, usize)> = rep
                .iter()
                .enumerate()
                .filter(|(k, _)| !taken.contains(k))
                .map(|(_, (v, s, e))| (*v, -sign * s, *e))
                .collect();
            if let Some(starts) = windows(&ops, digit.len() - 1) {
                return Some(Digits { ops, digit, starts });
            }
        }
    }
    None
}

/// `free` are the variables (numbered as in `Names`) that the caller chose.
pub fn certificate<S: PrimeField>(cs: &Rec<S>, free: &BTreeSet<usize>, outs: &[Lc<S>]) -> J {
    let nm = Names::new(cs);
    let t: Vec<[BTreeMap<usize, S>; 3]> = cs
        .cons
        .iter()
        .map(|c| [nm.terms(&c.0), nm.terms(&c.1), nm.terms(&c.2)])
        .collect();
    let vars: Vec<Vec<usize>> = t
        .iter()
        .map(|c| {
            let s: BTreeSet<usize> = c
                .iter()
                .flat_map(|l| l.keys().cloned())
                .filter(|v| *v != 1)
                .collect();
            s.into_iter().collect()
        })
        .collect();
    let one: BTreeMap<usize, S> = [(1, S::ONE)].into_iter().collect();
    // kind, constraint, new variables
    let mut order: Vec<(&str, usize, Vec<usize>)> = vec![];
    let mut bpos = vec![0usize; nm.n + 1];
    let mut dstep = vec![0usize; nm.n + 1];
    let mut rest = vec![];
    for i in 0..t.len() {
        let quad = |v: &usize| t[i][0].contains_key(v) && t[i][1].contains_key(v);
        if vars[i].len() == 1 && quad(&vars[i][0]) && bpos[vars[i][0]] == 0 {
            order.push(("b", i, vec![vars[i][0]]));
            bpos[vars[i][0]] = order.len();
        } else {
            rest.push(i);
        }
    }
    // Boolean functions of variables known to be boolean.
    loop {
        let mut left = vec![];
        let before = rest.len();
        for i in rest {
            let unk: Vec<usize> = vars[i].iter().filter(|v| bpos[**v] == 0).cloned().collect();
            if unk.len() == 1 && vars[i].len() <= 8 && !free.contains(&unk[0]) {
                order.push(("f", i, unk.clone()));
                bpos[unk[0]] = order.len();
                dstep[unk[0]] = order.len();
            } else {
                left.push(i);
            }
        }
        rest = left;
        if rest.len() == before {
            break;
        }
    }
    // Equations that define digits.
    let mut sums: Vec<(usize, usize, Digits)> = vec![];
    let mut left = vec![];
    for i in rest {
        let sides = if t[i][1] == one {
            Some((0, 2))
        } else if t[i][0] == one {
            Some((1, 2))
        } else {
            None
        };
        let d = sides.and_then(|(a, c)| {
            if vars[i].iter().any(|v| bpos[*v] == 0) {
                return None;
            }
            let l = [&cs.cons[i].0, &cs.cons[i].1, &cs.cons[i].2];
            let mut eq: Lc<S> = l[a].clone();
            eq.extend(l[c].iter().map(|(x, k, co)| (*x, *k, -*co)));
            let fresh = |d: &Digits| d.digit.iter().all(|v| dstep[*v] == 0 && !free.contains(v));
            digits_aside(&nm, l[a], l[c])
                .filter(fresh)
                .or_else(|| digits_aside(&nm, l[c], l[a]).filter(fresh))
                .or_else(|| digits(&nm, &eq, &|v| dstep[v] == 0 && !free.contains(&v)))
        });
        match d {
            Some(d) => {
                order.push(("m", i, d.digit.clone()));
                for v in &d.digit {
                    dstep[*v] = order.len();
                }
                sums.push((order.len(), i, d));
            }
            None => left.push(i),
        }
    }
    // Ranks: each variable above all those that it is computed from.
    let mut rank = vec![-1i64; nm.n + 1];
    rank[1] = 0;
    for v in free {
        rank[*v] = 0;
    }
    loop {
        let mut change = false;
        for (kind, i, new) in &order {
            if *kind == "f" && rank[new[0]] < 0 {
                let m = vars[*i].iter().filter(|v| **v != new[0]).map(|v| rank[*v]);
                if m.clone().all(|r| r >= 0) {
                    rank[new[0]] = 1 + m.max().unwrap_or(0);
                    change = true;
                }
            }
        }
        for (_, _, d) in &sums {
            for (k, s) in d.starts.iter().enumerate() {
                let e = d.starts.get(k + 1).cloned().unwrap_or(d.digit.len());
                if rank[d.digit[*s]] >= 0 {
                    continue;
                }
                let m = d
                    .ops
                    .iter()
                    .filter(|o| o.2 >= *s && o.2 < e)
                    .map(|o| rank[o.0]);
                if m.clone().all(|r| r >= 0) {
                    let r = 1 + m.max().unwrap_or(0);
                    for x in *s..e {
                        rank[d.digit[x]] = r;
                    }
                    change = true;
                }
            }
        }
        // Constraints between boolean variables that determine one more.
        let mut more = vec![];
        for i in left {
            let unk: Vec<usize> = vars[i].iter().filter(|v| rank[**v] < 0).cloned().collect();
            if unk.len() == 1
                && dstep[unk[0]] == 0
                && vars[i].len() <= 8
                && vars[i].iter().all(|v| bpos[*v] != 0)
            {
                order.push(("f", i, unk.clone()));
                dstep[unk[0]] = order.len();
                rank[unk[0]] = 1 + vars[i].iter().map(|v| rank[*v]).max().unwrap();
                change = true;
            } else {
                more.push(i);
            }
        }
        left = more;
        if !change {
            break;
        }
    }
    for i in left {
        order.push(("x", i, vec![]));
    }
    let steps: Vec<J> = order
        .iter()
        .enumerate()
        .map(|(k, (kind, i, new))| {
            // definitions that relate the other variables to each other
            let mut sup: Vec<usize> = vec![];
            if *kind == "f" {
                for v in vars[*i].iter().filter(|v| **v != new[0] && dstep[**v] != 0) {
                    let d = dstep[*v];
                    if order[d - 1].0 == "f"
                        && vars[order[d - 1].1]
                            .iter()
                            .all(|x| *x != new[0] && vars[*i].contains(x))
                    {
                        sup.push(d);
                    }
                }
            }
            let c = &cs.cons[*i];
            let mut l = [nm.json(&c.0), nm.json(&c.1), nm.json(&c.2)];
            if let Some(x) = sums.iter().find(|x| x.0 == k + 1) {
                let (o, d) = x.2.json();
                l = [
                    o,
                    J::Arr(vec![J::Arr(vec![
                        1usize.into(),
                        1usize.into(),
                        0usize.into(),
                    ])]),
                    d,
                ];
            }
            let [la, lb, lc] = l;
            J::Arr(vec![
                (*kind).into(),
                J::from(new.clone()),
                la,
                lb,
                lc,
                J::from(sup),
            ])
        })
        .collect();
    obj! {"nv"=>nm.n,"cap"=>S::CAPACITY as usize,"free"=>free.iter().cloned().collect::<Vec<usize>>(),
    "bpos"=>bpos[1..].to_vec(),"dstep"=>dstep[1..].to_vec(),
    "rank"=>J::Arr(rank[1..].iter().map(|r| J::Int(*r)).collect()),"steps"=>J::Arr(steps),
    "outs"=>J::Arr(outs.iter().map(|l| J::from(nm.terms(l).keys().cloned().collect::<Vec<usize>>())).collect())}
}

#[cfg(test)]
mod test {
    #[test]
    fn naf_is_right() {
        type F = crate::toy::Fp<40961>;
        for x in 0..40961u64 {
            let mut v = 0i64;
            for (s, e) in super::naf(&F::new(x)) {
                v += s * (1 << e);
            }
            assert_eq!(v.rem_euclid(40961) as u64, x);
        }
    }
}
