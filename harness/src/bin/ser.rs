//! Serialization of proofs and keys (C22).
use bls12_381::{Bls12, G1Affine, G2Affine};
use conf::rng::Rng;
use conf::toy::*;
use conf::util::*;
use conf::{json, obj, J};
use groth16::*;
use group::prime::PrimeCurveAffine;
use group::{Curve, Group, GroupEncoding, UncompressedEncoding};
use std::alloc::{GlobalAlloc, Layout, System};
use std::io::{self, Read, Write};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
use std::sync::Arc;

/// Counts what is allocated.
struct Counting;
static NOW: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let n = NOW.fetch_add(l.size(), Relaxed) + l.size();
        PEAK.fetch_max(n, Relaxed);
        if l.size() > 1 << 33 {
            // Refuse what the sandbox could not give.
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        NOW.fetch_sub(l.size(), Relaxed);
        System.dealloc(p, l)
    }
}
#[global_allocator]
static A: Counting = Counting;

const P: u64 = 40961;
type T = Toy<P>;

/// Delivers bytes in pieces; then ends or fails.
struct Reader {
    b: Vec<u8>,
    pos: usize,
    mode: u64,
    rng: Rng,
}
impl Read for Reader {
    fn read(&mut self, out: &mut [u8]) -> io::Result<usize> {
        let left = self.b.len() - self.pos;
        if left == 0 && self.mode == 3 {
            return Err(io::Error::new(io::ErrorKind::Other, "disk on fire"));
        }
        let want = match self.mode {
            0 | 3 => out.len(),
            1 => 1,
            _ => {
                if self.rng.below(3) == 0 {
                    return Err(io::Error::new(io::ErrorKind::Interrupted, "signal"));
                }
                1 + self.rng.below(7) as usize
            }
        };
        let n = want.min(out.len()).min(left);
        out[..n].copy_from_slice(&self.b[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
/// Takes bytes in pieces, up to `cap`; then takes none or fails.
struct Writer {
    b: Vec<u8>,
    cap: usize,
    mode: u64,
    rng: Rng,
}
impl Write for Writer {
    fn write(&mut self, d: &[u8]) -> io::Result<usize> {
        let left = self.cap - self.b.len();
        if left == 0 && !d.is_empty() {
            return if self.mode % 2 == 0 {
                Err(io::Error::new(io::ErrorKind::Other, "disk full"))
            } else {
                Ok(0)
            };
        }
        let want = match self.mode / 2 {
            0 => d.len(),
            1 => 1,
            _ => {
                if self.rng.below(3) == 0 {
                    return Err(io::Error::new(io::ErrorKind::Interrupted, "signal"));
                }
                1 + self.rng.below(7) as usize
            }
        };
        let n = want.min(d.len()).min(left);
        self.b.extend_from_slice(&d[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

enum Ob {
    Pf(Proof<T>),
    Vk(VerifyingKey<T>),
    Ps(Parameters<T>),
}
impl Ob {
    fn read(kind: &str, checked: bool, r: &mut Reader) -> io::Result<Ob> {
        match kind {
            "proof" => Proof::read(r).map(Ob::Pf),
            "vk" => VerifyingKey::read(r).map(Ob::Vk),
            _ => Parameters::read(r, checked).map(Ob::Ps),
        }
    }
    fn write(&self, w: &mut Writer) -> io::Result<()> {
        match self {
            Ob::Pf(x) => x.write(w),
            Ob::Vk(x) => x.write(w),
            Ob::Ps(x) => x.write(w),
        }
    }
    fn same(&self, o: &Ob) -> bool {
        match (self, o) {
            (Ob::Pf(a), Ob::Pf(b)) => a == b,
            (Ob::Vk(a), Ob::Vk(b)) => a == b,
            (Ob::Ps(a), Ob::Ps(b)) => a == b,
            _ => false,
        }
    }
    fn vals(&self) -> J {
        let one = |v: u64| J::from(vec![v]);
        let vk = |v: &VerifyingKey<T>| {
            vec![
                one(v.alpha_g1.0),
                one(v.beta_g1.0),
                one(v.beta_g2.0),
                one(v.gamma_g2.0),
                one(v.delta_g1.0),
                one(v.delta_g2.0),
                J::from(v.ic.clone()),
            ]
        };
        J::Arr(match self {
            Ob::Pf(p) => vec![one(p.a.0), one(p.b.0), one(p.c.0)],
            Ob::Vk(v) => vk(v),
            Ob::Ps(p) => {
                let mut r = vk(&p.vk);
                r.extend([
                    J::from(p.h.to_vec()),
                    J::from(p.l.to_vec()),
                    J::from(p.a.to_vec()),
                    J::from(p.b_g1.to_vec()),
                    J::from(p.b_g2.to_vec()),
                ]);
                r
            }
        })
    }
}

fn bytes(j: &J) -> Vec<u8> {
    j.arr().iter().map(|x| x.int() as u8).collect()
}

fn read_case(kind: &str, b: &[u8], checked: bool, mode: u64, rng: &mut Rng) -> (J, Option<Ob>) {
    let mut r = Reader {
        b: b.to_vec(),
        pos: 0,
        mode,
        rng: Rng::new(rng.next()),
    };
    let base = NOW.load(Relaxed);
    PEAK.store(base, Relaxed);
    let res = guard(|| Ob::read(kind, checked, &mut r));
    let peak = PEAK.load(Relaxed) - base;
    let mut e = obj! {"e"=>"read","kind"=>kind,"checked"=>checked,"bytes"=>b,"mode"=>mode,"peak_kb"=>(peak >> 10).min(1 << 30),"used"=>r.pos};
    match res {
        Ok(Ok(o)) => {
            e.push("res", "ok");
            e.push("obj", o.vals());
            let mut w = Writer {
                b: vec![],
                cap: 1 << 20,
                mode: 2 * (mode % 3),
                rng: Rng::new(rng.next()),
            };
            let wr = guard(|| o.write(&mut w).is_ok()).unwrap_or(false);
            e.push("wres", wr);
            e.push("re", &w.b[..]);
            // And it reads back as an equal object.
            let mut r2 = Reader {
                b: w.b.clone(),
                pos: 0,
                mode: 0,
                rng: Rng::new(0),
            };
            let eq = match guard(|| Ob::read(kind, checked, &mut r2)) {
                Ok(Ok(o2)) => o.same(&o2),
                _ => false,
            };
            e.push("eq", eq);
            (e, Some(o))
        }
        Ok(Err(_)) => {
            e.push("res", "err");
            (e, None)
        }
        Err(_) => {
            e.push("res", "panic");
            (e, None)
        }
    }
}

// ---- the real curve: points by class ----
fn bls_g1(rng: &mut Rng, class: &str, comp: bool) -> Vec<u8> {
    let enc = |p: G1Affine| {
        if comp {
            p.to_compressed().to_vec()
        } else {
            p.to_uncompressed().to_vec()
        }
    };
    match class {
        "in" => enc(bls12_381::G1Projective::random(&mut *rng).to_affine()),
        "id" => enc(G1Affine::identity()),
        "out" => loop {
            let mut b = [0u8; 48];
            b[40..].copy_from_slice(&rng.next().to_be_bytes());
            b[0] = 0x80;
            let p = Option::<G1Affine>::from(G1Affine::from_compressed_unchecked(&b));
            if let Some(p) = p {
                if !bool::from(p.is_torsion_free()) {
                    return enc(p);
                }
            }
        },
        // Not a point: flags that do not fit, or a coordinate beyond the field.
        "bad0" => {
            let mut b = bls_g1(rng, "in", comp);
            b[0] ^= 0x80;
            b
        }
        "bad1" => {
            let mut b = bls_g1(rng, "in", comp);
            b[0] |= 0x40;
            b
        }
        "bad2" => {
            let n = if comp { 48 } else { 96 };
            let mut b = vec![0xff; n];
            b[0] = if comp { 0x9f } else { 0x1f };
            b
        }
        _ => loop {
            let mut b = bls_g1(rng, "in", comp);
            let n = b.len();
            b[n - 1] ^= 1 + rng.below(100) as u8;
            let some = if comp {
                let mut x = [0u8; 48];
                x.copy_from_slice(&b);
                bool::from(G1Affine::from_compressed_unchecked(&x).is_some())
            } else {
                false
            };
            if !some {
                return b;
            }
        },
    }
}
fn bls_g2(rng: &mut Rng, class: &str, comp: bool) -> Vec<u8> {
    let enc = |p: G2Affine| {
        if comp {
            p.to_compressed().to_vec()
        } else {
            p.to_uncompressed().to_vec()
        }
    };
    match class {
        "in" => enc(bls12_381::G2Projective::random(&mut *rng).to_affine()),
        "id" => enc(G2Affine::identity()),
        "out" => loop {
            let mut b = [0u8; 96];
            b[88..].copy_from_slice(&rng.next().to_be_bytes());
            b[0] = 0x80;
            let p = Option::<G2Affine>::from(G2Affine::from_compressed_unchecked(&b));
            if let Some(p) = p {
                if !bool::from(p.is_torsion_free()) {
                    return enc(p);
                }
            }
        },
        "bad0" => {
            let mut b = bls_g2(rng, "in", comp);
            b[0] ^= 0x80;
            b
        }
        "bad1" => {
            let mut b = bls_g2(rng, "in", comp);
            b[0] |= 0x40;
            b
        }
        "bad2" => {
            let n = if comp { 96 } else { 192 };
            let mut b = vec![0xff; n];
            b[0] = if comp { 0x9f } else { 0x1f };
            b
        }
        _ => loop {
            let mut b = bls_g2(rng, "in", comp);
            let n = b.len();
            b[n - 1] ^= 1 + rng.below(100) as u8;
            let some = if comp {
                let mut x = [0u8; 96];
                x.copy_from_slice(&b);
                bool::from(G2Affine::from_compressed_unchecked(&x).is_some())
            } else {
                false
            };
            if !some {
                return b;
            }
        },
    }
}

fn bls_case(
    kind: &str,
    lens: &[usize],
    special: Option<(usize, &str)>,
    cut: Option<usize>,
    checked: bool,
    rng: &mut Rng,
) -> J {
    // The fields in order; "1"/"2" a point, "v1"/"v2" a vector.
    let vk = ["1", "1", "2", "2", "1", "2", "v1"];
    let fields: Vec<&str> = match kind {
        "proof" => vec!["1", "2", "1"],
        "vk" => vk.to_vec(),
        _ => vk
            .iter()
            .copied()
            .chain(["v1", "v1", "v1", "v1", "v2"])
            .collect(),
    };
    let comp = kind == "proof";
    let mut b = vec![];
    let mut toks = vec![];
    let mut li = 0;
    let mut k = 0;
    for (i, f) in fields.iter().enumerate() {
        let n = if f.starts_with('v') {
            let n = lens[li % lens.len()];
            li += 1;
            b.extend_from_slice(&(n as u32).to_be_bytes());
            n
        } else {
            1
        };
        for _ in 0..n {
            let class = match special {
                Some((at, c)) if at == k => c,
                _ => "in",
            };
            k += 1;
            let p = if f.ends_with('1') {
                bls_g1(rng, class, comp)
            } else {
                bls_g2(rng, class, comp)
            };
            b.extend_from_slice(&p);
            toks.push(J::Arr(vec![
                J::from(i + 1),
                J::from(match class {
                    // Whether a point is on the curve is not asked of an uncompressed one unless checking.
                    "bad3" if !comp => "out",
                    c if c.starts_with("bad") => "bad",
                    c => c,
                }),
            ]));
        }
    }
    let total = b.len();
    if let Some(c) = cut {
        b.truncate(c.min(total));
    } else {
        b.extend_from_slice(&[7, 7, 7]);
    }
    let trunc = b.len() < total;
    let mut r = Reader {
        b: b.clone(),
        pos: 0,
        mode: rng.below(3),
        rng: Rng::new(rng.next()),
    };
    let mut out = vec![];
    let res = guard(|| -> io::Result<bool> {
        match kind {
            "proof" => {
                let p = Proof::<Bls12>::read(&mut r)?;
                p.write(&mut out)?;
                Ok(Proof::<Bls12>::read(&out[..])? == p)
            }
            "vk" => {
                let p = VerifyingKey::<Bls12>::read(&mut r)?;
                p.write(&mut out)?;
                Ok(VerifyingKey::<Bls12>::read(&out[..])? == p)
            }
            _ => {
                let p = Parameters::<Bls12>::read(&mut r, checked)?;
                p.write(&mut out)?;
                Ok(Parameters::<Bls12>::read(&out[..], checked)? == p)
            }
        }
    });
    let mut e = obj! {"e"=>"bls","kind"=>kind,"checked"=>checked,"toks"=>J::Arr(toks),"trunc"=>trunc,"total"=>total,"used"=>r.pos};
    match res {
        Ok(Ok(eq)) => {
            e.push("res", "ok");
            e.push("same", eq && out == b[..total]);
        }
        Ok(Err(_)) => e.push("res", "err"),
        Err(_) => e.push("res", "panic"),
    }
    e
}

/// Vectors of many points: written, read back; with the last point of the long one spoilt; cut short.
fn many(kind: &str, sizes: &[usize], spoil: &str, rng: &mut Rng) -> J {
    let mut k = rng.below(40000);
    let mut next = || {
        k = k % (P - 1) + 1;
        k
    };
    let mut v1 = |n: usize| (0..n).map(|_| G1::<P>(next())).collect::<Vec<_>>();
    let vk = VerifyingKey::<T> {
        alpha_g1: G1(2),
        beta_g1: G1(3),
        beta_g2: G2(4),
        gamma_g2: G2(5),
        delta_g1: G1(6),
        delta_g2: G2(7),
        ic: v1(sizes[0]),
    };
    let o = if kind == "vk" {
        Ob::Vk(vk)
    } else {
        Ob::Ps(Parameters {
            vk,
            h: Arc::new(v1(sizes[1])),
            l: Arc::new(v1(sizes[2])),
            a: Arc::new(v1(sizes[3])),
            b_g1: Arc::new(v1(sizes[4])),
            b_g2: Arc::new(
                (0..sizes[5])
                    .map(|i| G2((i as u64 * 7) % (P - 1) + 1))
                    .collect(),
            ),
        })
    };
    let mut w = Writer {
        b: vec![],
        cap: 1 << 30,
        mode: 0,
        rng: Rng::new(0),
    };
    let wres = guard(|| o.write(&mut w).is_ok()).unwrap_or(false);
    let mut b = w.b;
    let total = b.len();
    // Where the counts stand, and where the last point of the longest vector does.
    let mut at = 3 * 10 + 3 * 12;
    let mut heads = vec![];
    let long = *sizes.iter().max().unwrap();
    let mut last = 0;
    for (i, n) in sizes.iter().enumerate() {
        heads.push(J::from(b.get(at..at + 4).unwrap_or(&[]).to_vec()));
        let size = if i == 5 { 12 } else { 10 };
        at += 4 + n * size;
        if *n == long {
            last = at - size;
        }
    }
    if last + 10 <= b.len() {
        match spoil {
            "id" => {
                b[last] = 1;
                b[last + 1..last + 9].fill(0);
            }
            "bad" => b[last] = 3,
            _ => {}
        }
    }
    match spoil {
        "cut" => {
            b.pop();
        }
        _ => b.extend([9, 9, 9]),
    }
    let mut r = Reader {
        b,
        pos: 0,
        mode: 0,
        rng: Rng::new(0),
    };
    let got = guard(|| Ob::read(kind, rng.coin(), &mut r));
    let mut e = obj! {"e"=>"many","kind"=>kind,"sizes"=>sizes.to_vec(),"spoil"=>spoil,"wres"=>wres,"total"=>total,"heads"=>J::Arr(heads),"used"=>r.pos};
    match got {
        Ok(Ok(o2)) => {
            e.push("res", "ok");
            e.push("same", o.same(&o2));
        }
        Ok(Err(_)) => e.push("res", "err"),
        Err(_) => e.push("res", "panic"),
    }
    e
}

fn main() {
    quiet_panics();
    let mode = arg(1);
    let mut out = Out::new(&arg(2));
    let mut rng = Rng::new(seed() * 19 + mode.len() as u64);
    match mode.as_str() {
        "many" => {
            let ns = [
                100usize, 127, 128, 255, 256, 257, 1000, 32767, 32768, 65535, 65536, 65537, 70000,
            ];
            for n in ns {
                for i in 0..6 {
                    let mut sizes = [1usize + i, 2, 0, 3, 1, 2];
                    sizes[i] = n;
                    for spoil in ["none", "id", "bad", "cut"] {
                        if n < 65536 && spoil != "none" && (i + n) % 3 != 0 {
                            continue;
                        }
                        out.put(&many("params", &sizes, spoil, &mut rng));
                        if i == 0 {
                            out.put(&many("vk", &sizes[..1], spoil, &mut rng));
                        }
                    }
                }
            }
        }
        "read" => {
            for (i, j) in json::read_lines(&arg(3)).iter().enumerate() {
                let b = bytes(j.get("bytes"));
                let kind = j.get("kind").str();
                let plain = j.get("edit").str() == "none";
                for checked in [true, false] {
                    if kind != "params" && !checked {
                        continue;
                    }
                    let ms: Vec<u64> = if plain {
                        vec![0, 1, 2, 3]
                    } else {
                        vec![(i as u64 + checked as u64) % 4]
                    };
                    for m in ms {
                        let (e, o) = read_case(kind, &b, checked, m, &mut rng);
                        out.put(&e);
                        if let (true, Some(o)) = (plain && m == 0, o) {
                            // Writers that fail or stop at every point.
                            let n = b.len();
                            for cap in 0..n + 2 {
                                let wm = (cap as u64 + i as u64) % 6;
                                let mut w = Writer {
                                    b: vec![],
                                    cap,
                                    mode: wm,
                                    rng: Rng::new(rng.next()),
                                };
                                let r = match guard(|| o.write(&mut w)) {
                                    Ok(Ok(())) => "ok",
                                    Ok(Err(_)) => "err",
                                    Err(_) => "panic",
                                };
                                out.put(&obj! {"e"=>"write","kind"=>kind,"bytes"=>&b[..],"cap"=>cap,"res"=>r,"wrote"=>&w.b[..]});
                            }
                            // Equality sees every point.
                            for k in 0..n {
                                let mut b2 = b.clone();
                                b2[k] = b2[k].wrapping_add(1);
                                let mut r2 = Reader {
                                    b: b2.clone(),
                                    pos: 0,
                                    mode: 0,
                                    rng: Rng::new(0),
                                };
                                if let Ok(Ok(o2)) = guard(|| Ob::read(kind, checked, &mut r2)) {
                                    let used = &b2[..r2.pos];
                                    out.put(&obj! {"e"=>"eq","a"=>o.vals(),"b"=>o2.vals(),"res"=>o.same(&o2),"used"=>used});
                                }
                            }
                        }
                    }
                }
            }
        }
        "bls" => {
            let classes = ["id", "out", "bad0", "bad1", "bad2", "bad3"];
            for kind in ["proof", "vk", "params"] {
                let n = match kind {
                    "proof" => 3,
                    "vk" => 9,
                    _ => 9 + 9,
                };
                for checked in [true, false] {
                    let lens: &[usize] = &[3, 2, 1, 3, 2, 1];
                    out.put(&bls_case(kind, lens, None, None, checked, &mut rng));
                    out.put(&bls_case(kind, &[0], None, None, checked, &mut rng));
                    out.put(&bls_case(kind, &[1], None, None, checked, &mut rng));
                    for at in 0..n {
                        for c in classes {
                            out.put(&bls_case(
                                kind,
                                lens,
                                Some((at, c)),
                                None,
                                checked,
                                &mut rng,
                            ));
                        }
                    }
                    for cut in 0..tier(60, 400) {
                        let c = if kind == "proof" {
                            cut * 192 / tier(60, 400)
                        } else {
                            rng.below(1800) as usize
                        };
                        out.put(&bls_case(kind, lens, None, Some(c), checked, &mut rng));
                    }
                }
            }
            let _ = Arc::new(0);
        }
        m => panic!("harness: {}", m),
    }
}
