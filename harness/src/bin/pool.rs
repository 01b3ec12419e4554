//! Histories of the worker pool (C07) and of its parallel regions (C08).
use bellman::multicore::{Waiter, Worker};
use conf::rng::Rng;
use conf::util::*;
use conf::{json, obj, J};
use std::collections::HashMap;
use std::sync::mpsc::{channel, RecvTimeoutError, Sender};
use std::sync::{Arc, Condvar, Mutex};
use std::thread;
use std::time::Duration;

/// A totally ordered log of what happens.
#[derive(Default)]
struct Log(Mutex<Vec<J>>);
impl Log {
    fn put(&self, j: J) {
        self.0.lock().unwrap().push(j)
    }
    fn outstanding(&self) -> usize {
        let (mut s, mut e) = (0, 0);
        for x in self.0.lock().unwrap().iter() {
            match x.get("e").str() {
                "sub" => s += 1,
                "end" => e += 1,
                _ => {}
            }
        }
        s - e
    }
    fn take(&self) -> J {
        J::Arr(self.0.lock().unwrap().clone())
    }
}

#[derive(Default)]
struct Gate(Mutex<bool>, Condvar);
impl Gate {
    fn open(&self) {
        *self.0.lock().unwrap() = true;
        self.1.notify_all();
    }
    fn pass(&self) {
        let mut g = self.0.lock().unwrap();
        while !*g {
            g = self.1.wait(g).unwrap();
        }
    }
}

/// Waiters that have been returned, by job.
#[derive(Default)]
struct Waiters(Mutex<HashMap<usize, Waiter<usize>>>, Condvar);
impl Waiters {
    fn put(&self, j: usize, w: Waiter<usize>) {
        self.0.lock().unwrap().insert(j, w);
        self.1.notify_all();
    }
    fn take(&self, j: usize) -> Waiter<usize> {
        let mut g = self.0.lock().unwrap();
        loop {
            if let Some(w) = g.remove(&j) {
                return w;
            }
            g = self.1.wait(g).unwrap();
        }
    }
}

fn value(j: usize) -> usize {
    (j * 2654435761) % 1000003
}

struct World {
    log: Log,
    waiters: Waiters,
    gates: Mutex<HashMap<usize, Arc<Gate>>>,
}

fn submit(w: &Arc<World>, kind: char, j: usize) {
    let w2 = w.clone();
    let gate = if kind == 'g' {
        Some(w.gates.lock().unwrap().entry(j).or_default().clone())
    } else {
        None
    };
    w.log.put(obj! {"e"=>"sub","j"=>j,"v"=>value(j)});
    let waiter = Worker::new().compute(move || {
        w2.log.put(obj! {"e"=>"start","j"=>j});
        if let Some(g) = gate {
            g.pass();
        }
        if kind == 'n' {
            submit(&w2, 'q', 1000 + j);
        }
        w2.log.put(obj! {"e"=>"end","j"=>j});
        value(j)
    });
    w.log.put(obj! {"e"=>"ret","j"=>j});
    w.waiters.put(j, waiter);
}

fn use_waiter(w: &Arc<World>, j: usize, wait: bool) -> thread::JoinHandle<()> {
    let w = w.clone();
    thread::spawn(move || {
        let waiter = w.waiters.take(j);
        if wait {
            match guard(|| waiter.wait()) {
                Ok(v) => w.log.put(obj! {"e"=>"got","j"=>j,"v"=>v}),
                Err(m) => w.log.put(obj! {"e"=>"wait failed","j"=>j,"m"=>m}),
            }
        } else {
            w.log.put(obj! {"e"=>"drop","j"=>j});
            drop(waiter);
        }
    })
}

/// Plays one history; false if it hangs or a submission is blocked (then nothing more
/// can be run).
fn play(ops: &[J], threads: usize, gates_ok: bool, out: &mut Out) -> bool {
    let w = Arc::new(World {
        log: Log::default(),
        waiters: Waiters::default(),
        gates: Mutex::new(HashMap::new()),
    });
    let (atx, arx) = channel();
    let mut subs: HashMap<usize, Sender<(char, usize)>> = HashMap::new();
    let mut subthreads = vec![];
    let mut users = vec![];
    let mut sent: Vec<(usize, usize)> = vec![]; // submissions handed to callers
    let mut acked = std::collections::HashSet::new();
    let mut unused: Vec<usize> = vec![];
    let mut blocked = false;
    for o in ops {
        if blocked {
            // Enough has been seen.
            break;
        }
        let o = o.arr();
        match o[0].str() {
            "sub" => {
                let (c, mut k, j) = (o[1].us(), o[2].str().chars().next().unwrap(), o[3].us());
                if k == 'g' && !gates_ok {
                    k = 'q';
                }
                if k == 'g' {
                    w.gates.lock().unwrap().entry(j).or_default();
                }
                unused.push(j);
                if k == 'n' {
                    unused.push(1000 + j);
                }
                let tx = subs.entry(c).or_insert_with(|| {
                    let (tx, rx) = channel::<(char, usize)>();
                    let w = w.clone();
                    let atx = atx.clone();
                    subthreads.push(thread::spawn(move || {
                        for (k, j) in rx {
                            submit(&w, k, j);
                            let _ = atx.send(j);
                        }
                    }));
                    tx
                });
                tx.send((k, j)).unwrap();
                while let Ok(j) = arx.try_recv() {
                    acked.insert(j);
                }
                // A caller that is still held up by an earlier job.
                let stuck = sent.iter().any(|(c2, j)| *c2 == c && !acked.contains(j));
                sent.push((c, j));
                if stuck {
                    continue;
                }
                // Wait for the call to return: patiently while there is no backlog.
                let idle = w.log.outstanding() <= threads;
                while !acked.contains(&j) {
                    match arx.recv_timeout(Duration::from_millis(if idle { 20000 } else { 25 })) {
                        Ok(j) => {
                            acked.insert(j);
                        }
                        Err(RecvTimeoutError::Timeout) => {
                            w.log
                                .put(obj! {"e"=>if idle {"blocked"} else {"held"},"j"=>j});
                            blocked = idle;
                            break;
                        }
                        Err(_) => break,
                    }
                }
            }
            "rel" => {
                let j = o[1].us();
                if let Some(g) = w.gates.lock().unwrap().get(&j) {
                    g.open();
                }
            }
            op => {
                let j = o[1].us();
                unused.retain(|x| *x != j);
                users.push(use_waiter(&w, j, op == "wait"));
            }
        }
    }
    for g in w.gates.lock().unwrap().values() {
        g.open();
    }
    for (i, j) in unused.into_iter().enumerate() {
        users.push(use_waiter(&w, j, i % 3 != 0));
    }
    drop(subs);
    let w2 = w.clone();
    let end = timed(40, move || {
        for t in subthreads.into_iter().chain(users) {
            t.join().unwrap();
        }
        // Jobs whose waiters were dropped may still be running.
        for _ in 0..20000 {
            if w2.log.outstanding() == 0 {
                return;
            }
            thread::sleep(Duration::from_millis(1));
        }
    });
    let ok = matches!(end, Ok(Ok(())));
    let more = ok && !blocked;
    w.log.put(obj! {"e"=>if ok {"quiet"} else {"hang"}});
    out.put(&obj! {"T"=>threads,"ev"=>w.log.take()});
    more
}

fn sub(c: usize, k: &str, j: usize) -> J {
    J::Arr(vec![J::from("sub"), J::from(c), J::from(k), J::from(j)])
}

#[cfg(feature = "mc")]
mod pool {
    pub fn threads() -> usize {
        rayon::current_num_threads()
    }
    pub fn inside<R: Send>(f: impl FnOnce() -> R + Send) -> R {
        let mut r = None;
        rayon::scope(|_| r = Some(f()));
        r.unwrap()
    }
}
#[cfg(not(feature = "mc"))]
mod pool {
    pub fn threads() -> usize {
        1
    }
    pub fn inside<R: Send>(f: impl FnOnce() -> R + Send) -> R {
        f()
    }
}

fn main() {
    quiet_panics();
    let mode = arg(1);
    let mut out = Out::new(&arg(2));
    let threads = pool::threads();
    let mc = cfg!(feature = "mc");
    let mut rng = Rng::new(seed() * 31 + threads as u64);
    match mode.as_str() {
        "hist" => {
            let (part, parts): (usize, usize) = (arg(4).parse().unwrap(), arg(5).parse().unwrap());
            for (i, j) in json::read_lines(&arg(3)).iter().enumerate() {
                if i % parts == part && !play(j.get("ops").arr(), threads, mc, &mut out) {
                    return;
                }
            }
        }
        // A backlog far beyond the limit, by one or several callers; before and after
        // it a history without one: nothing may be left over.
        "flood" => {
            for round in 0..tier(3, 12) {
                let mut ops = vec![];
                let mut order = vec![];
                let n = 3 + threads * (6 + 12 * (round % 3));
                for j in 1..=n {
                    // One caller blocks for good once the backlog is full; with several
                    // the others must be held up as well.
                    ops.push(sub(1 + j % (1 + round), if mc { "g" } else { "q" }, j));
                    order.push(j);
                    if !mc && j % 3 == 0 {
                        ops.push(J::Arr(vec![J::from("drop"), J::from(j)]));
                    }
                }
                while !order.is_empty() {
                    let j = order.swap_remove(rng.below(order.len() as u64) as usize);
                    if mc {
                        ops.push(J::Arr(vec![J::from("rel"), J::from(j)]));
                        ops.push(J::Arr(vec![
                            J::from(if rng.coin() { "wait" } else { "drop" }),
                            J::from(j),
                        ]));
                    }
                }
                if !play(&ops, threads, mc, &mut out) {
                    return;
                }
                let many: Vec<J> = (1..=50 * threads)
                    .map(|j| sub(1 + j % 4, if j % 5 == 0 { "n" } else { "q" }, j))
                    .collect();
                if !play(&many, threads, mc, &mut out) {
                    return;
                }
                let few: Vec<J> = (1..=2 * threads).map(|j| sub(1, "g", j)).collect();
                if !play(&few, threads, mc, &mut out) {
                    return;
                }
            }
        }
        // Waiting inside the pool, with all threads busy, must not deadlock.
        "inside" => {
            let mut ev = vec![];
            // An already finished waiter, in and outside the pool.
            ev.push(obj! {"e"=>"done","v"=>Waiter::done(7usize).wait(),"want"=>7});
            for k in 0..3 * threads {
                let b = Arc::new(std::sync::Barrier::new(threads));
                let hs: Vec<_> = (0..threads)
                    .map(|i| {
                        let b = b.clone();
                        thread::spawn(move || {
                            timed(20, move || {
                                pool::inside(move || {
                                    if mc {
                                        b.wait();
                                    }
                                    let w = Worker::new().compute(move || value(i));
                                    guard(|| w.wait())
                                })
                            })
                        })
                    })
                    .collect();
                let mut hang = false;
                for (i, h) in hs.into_iter().enumerate() {
                    let r = match h.join().unwrap() {
                        Ok(Ok(Ok(v))) if v == value(i) => "value",
                        Ok(Ok(Ok(_))) => "wrong value",
                        Ok(Ok(Err(_))) | Ok(Err(_)) => "panic",
                        Err(_) => {
                            hang = true;
                            "hang"
                        }
                    };
                    ev.push(obj! {"e"=>"poolwait","k"=>k,"res"=>r});
                }
                if hang {
                    break;
                }
            }
            out.put(&obj! {"T"=>threads,"mc"=>mc,"ev"=>ev});
        }
        // Parallel regions.
        "scope" => {
            use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
            let worker = Worker::new();
            let mut ev = vec![obj! {"e"=>"log","v"=>worker.log_num_threads()}];
            let mut ns: Vec<usize> = (0..tier(70, 300)).collect();
            ns.extend([127, 128, 129, 1000, 1021]);
            for n in ns {
                let mut data = vec![0u32; n];
                let spawned = AtomicUsize::new(0);
                let ran = AtomicUsize::new(0);
                let mut chunk = usize::MAX;
                let want = value(n);
                let slow = n % 9 == 0;
                let got = {
                    let (data, spawned, ran, chunk) = (&mut data, &spawned, &ran, &mut chunk);
                    guard(move || worker_scope(n, data, spawned, ran, chunk, slow, want))
                };
                let done = ran.load(SeqCst);
                ev.push(obj! {"e"=>"scope","n"=>n,"chunk"=>if chunk == usize::MAX {-1} else {chunk.min(1 << 30) as i64},
                    "spawned"=>spawned.load(SeqCst),"ran"=>done,
                    "ret"=>got.map(|v| v as i64).unwrap_or(-1),"want"=>want,
                    "once"=>data.iter().all(|x| *x == 1)});
            }
            out.put(&obj! {"T"=>threads,"mc"=>mc,"ev"=>ev});
        }
        m => panic!("harness: mode {}", m),
    }
}

fn worker_scope(
    n: usize,
    data: &mut [u32],
    spawned: &std::sync::atomic::AtomicUsize,
    ran: &std::sync::atomic::AtomicUsize,
    chunk: &mut usize,
    slow: bool,
    want: usize,
) -> usize {
    use std::sync::atomic::Ordering::SeqCst;
    Worker::new().scope(n, move |scope, c| {
        *chunk = c;
        for part in data.chunks_mut(c) {
            spawned.fetch_add(1, SeqCst);
            scope.spawn(move |s| {
                if slow {
                    thread::sleep(Duration::from_millis(2));
                }
                for x in part.iter_mut() {
                    *x += 1;
                }
                // Tasks may spawn tasks; those, too, are awaited.
                spawned.fetch_add(1, SeqCst);
                s.spawn(move |_| {
                    if slow {
                        thread::sleep(Duration::from_millis(1));
                    }
                    ran.fetch_add(1, SeqCst);
                });
                ran.fetch_add(1, SeqCst);
            });
        }
        want
    })
}
