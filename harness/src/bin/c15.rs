//! C15 run-time modulus: visible to every thread, isolated between ids, default untouched, race-free.
//! Also run under Miri (--tier miri scale) and ThreadSanitizer.
use rust_cp::misc::modint::{Barrett, DynamicModInt, Id, ModInt};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Barrier, Mutex};
use vmon::modmac::{modulus, powmod, residue};
use vmon::*;

macro_rules! ids {
    ($($n:ident = $m:expr),*) => {$(
        #[derive(Copy, Clone, Eq, PartialEq)]
        pub enum $n {}
        impl Id for $n {
            fn companion_barrett() -> &'static Barrett {
                static B: Barrett = Barrett::new($m);
                &B
            }
        }
    )*};
}
ids!(A = 7, B = 11, C = 1_000_000_007, Unset = 13);
#[derive(Copy, Clone, Eq, PartialEq)]
pub enum UnsetDefault {}
impl Id for UnsetDefault {
    fn companion_barrett() -> &'static Barrett {
        static B: std::sync::OnceLock<Barrett> = std::sync::OnceLock::new();
        B.get_or_init(Default::default)
    }
}

/// does a burst of arithmetic with id I, checking each step against exact integers modulo m
fn burst<I: Id>(r: &mut Rng, m: u32, steps: usize, who: &str) -> Result<u64, String> {
    type Z<I> = DynamicModInt<I>;
    let mut n = 0;
    let mm = m as u64;
    for _ in 0..steps {
        let got = Z::<I>::modulus();
        if got != m { return Err(format!("{who}: reads modulus {got}, want {m}")) }
        let (a, b) = (residue(r, m), residue(r, m));
        let (x, y) = (Z::<I>::raw(a), Z::<I>::raw(b));
        let t = [(x * y).val(), (x + y).val(), (x - y).val(), x.pow(b as u64 % 50).val(), Z::<I>::new(r.u64()).val() % 1];
        let w = [(a as u64 * b as u64 % mm) as u32, ((a as u64 + b as u64) % mm) as u32, ((a as u64 + mm - b as u64) % mm) as u32, powmod(a as u128, b as u64 % 50, m as u128) as u32, 0];
        if t != w { return Err(format!("{who}: ({a}, {b}) mod {m}: [*,+,-,pow] = {t:?}, want {w:?}")) }
        let i: i64 = r.u64() as i64;
        let v = Z::<I>::new(i).val();
        if v as i128 != (i as i128).rem_euclid(m as i128) { return Err(format!("{who}: new({i}) mod {m} = {v}")) }
        n += 6;
    }
    Ok(n)
}
fn collect(c: &mut Case, rs: Vec<Result<u64, String>>) {
    for r in rs {
        match r {
            Ok(n) => c.events += n,
            Err(e) => violation(e),
        }
    }
}
fn join(hs: Vec<std::thread::JoinHandle<Result<u64, String>>>) -> Vec<Result<u64, String>> {
    hs.into_iter().map(|h| match h.join() { Ok(r) => r, Err(p) => std::panic::resume_unwind(p) }).collect()
}
fn steps(c: &mut Case) -> usize { if cfg!(miri) { 3 } else { c.rng.range(5, 200) } }
fn nthreads(c: &mut Case) -> usize { if cfg!(miri) { 2 } else { c.rng.range(2, 6) } }

/// first workload of a fresh process: nothing has been set yet
fn default_id(c: &mut Case) {
    let k = nthreads(c);
    let st = steps(c);
    op!(c, 1, [k], "ids never set, read from {k} threads");
    check_eq!(c, ModInt::modulus(), 998_244_353, "default modulus");
    let seeds: Vec<u64> = (0..k).map(|_| c.rng.u64()).collect();
    let hs = seeds.into_iter().map(|s| std::thread::spawn(move || {
        let mut r = Rng::new(s);
        burst::<rust_cp::misc::modint::DefaultId>(&mut r, 998_244_353, st, "default id")?;
        burst::<UnsetDefault>(&mut r, 998_244_353, st, "own id with Barrett::default()")?;
        burst::<Unset>(&mut r, 13, st, "own id with Barrett::new(13)")
    })).collect();
    let rs = join(hs);
    collect(c, rs);
    c.nontrivial = true;
}
/// set on one thread, then compute on many (synchronised by spawn, barrier, channel, mutex or flag)
fn publish(c: &mut Case) {
    let (k, st) = (nthreads(c), steps(c));
    let (ma, mb, mc) = (modulus(&mut c.rng), modulus(&mut c.rng), modulus(&mut c.rng));
    let how = c.rng.below(5);
    op!(c, 2, [k, ma, mb, mc, how], "set A={ma}, B={mb}, C={mc} then {k} threads compute; synchronisation {how}");
    c.hit(["spawn", "barrier", "channel", "mutex", "flag"][how]);
    let setter = move || {
        DynamicModInt::<A>::set_modulus(ma);
        DynamicModInt::<B>::set_modulus(mb);
        DynamicModInt::<C>::set_modulus(mc);
    };
    let worker = move |s: u64| -> Result<u64, String> {
        let mut r = Rng::new(s);
        let mut n = 0;
        for j in 0..3 {
            n += match (s as usize + j) % 3 { 0 => burst::<A>(&mut r, ma, st, "id A")?, 1 => burst::<B>(&mut r, mb, st, "id B")?, _ => burst::<C>(&mut r, mc, st, "id C")? };
        }
        Ok(n)
    };
    let seeds: Vec<u64> = (0..k).map(|_| c.rng.u64()).collect();
    let rs = match how {
        0 => {
            // the setter itself is another thread
            std::thread::spawn(setter).join().unwrap();
            join(seeds.into_iter().map(|s| std::thread::spawn(move || worker(s))).collect())
        }
        1 => {
            let b = Arc::new(Barrier::new(k + 1));
            let hs: Vec<_> = seeds.into_iter().map(|s| { let b = b.clone(); std::thread::spawn(move || { b.wait(); worker(s) }) }).collect();
            setter();
            b.wait();
            join(hs)
        }
        2 => {
            let mut txs = vec![];
            let hs: Vec<_> = seeds.into_iter().map(|s| { let (tx, rx) = std::sync::mpsc::channel::<()>(); txs.push(tx); std::thread::spawn(move || { rx.recv().unwrap(); worker(s) }) }).collect();
            setter();
            for t in txs { t.send(()).unwrap() }
            join(hs)
        }
        3 => {
            let g = Arc::new(Mutex::new(false));
            let hs: Vec<_> = seeds.into_iter().map(|s| { let g = g.clone(); std::thread::spawn(move || { while !*g.lock().unwrap() { std::thread::yield_now() } worker(s) }) }).collect();
            { let mut q = g.lock().unwrap(); setter(); *q = true; }
            join(hs)
        }
        _ => {
            let g = Arc::new(AtomicBool::new(false));
            let hs: Vec<_> = seeds.into_iter().map(|s| { let g = g.clone(); std::thread::spawn(move || { while !g.load(Ordering::Acquire) { std::thread::yield_now() } worker(s) }) }).collect();
            setter();
            g.store(true, Ordering::Release);
            join(hs)
        }
    };
    collect(c, rs);
    // and on the setting thread itself
    let mut r = c.rng.clone();
    let rs = vec![burst::<A>(&mut r, ma, st, "id A on the main thread"), burst::<B>(&mut r, mb, st, "id B on the main thread")];
    collect(c, rs);
    c.nontrivial = true;
}
/// threads compute with A while another thread keeps changing B; A and the never-set ids stay put
fn isolate(c: &mut Case) {
    let (k, st) = (nthreads(c), steps(c));
    let ma = modulus(&mut c.rng);
    op!(c, 3, [k, ma], "A={ma} used by {k} threads while B changes");
    DynamicModInt::<A>::set_modulus(ma);
    let stop = Arc::new(AtomicBool::new(false));
    let flips = Arc::new(AtomicU64::new(0));
    let (s0, s1) = (c.rng.u64(), stop.clone());
    let fl = flips.clone();
    let flip = std::thread::spawn(move || {
        let mut r = Rng::new(s0);
        while !s1.load(Ordering::Relaxed) {
            let m = modulus(&mut r);
            DynamicModInt::<B>::set_modulus(m);
            fl.fetch_add(1, Ordering::Relaxed);
            // the only thread using B: it must see its own setting at once
            burst::<B>(&mut r, m, 1, "id B on its only thread")?;
            if cfg!(miri) { std::thread::yield_now() }
        }
        Ok(0)
    });
    let seeds: Vec<u64> = (0..k).map(|_| c.rng.u64()).collect();
    let hs = seeds.into_iter().map(|s| std::thread::spawn(move || {
        let mut r = Rng::new(s);
        burst::<A>(&mut r, ma, st, "id A while B changes").and_then(|n| burst::<Unset>(&mut r, 13, 2, "never-set id").map(|q| n + q))
    })).collect();
    let rs = join(hs);
    stop.store(true, Ordering::Relaxed);
    let rf = flip.join().unwrap();
    collect(c, vec![rf]);
    collect(c, rs);
    c.max("modulus changes during one case", flips.load(Ordering::Relaxed));
    if flips.load(Ordering::Relaxed) > 0 { c.hit("other id changed meanwhile") }
    c.nontrivial = true;
}
/// every thread sets the same modulus itself (the usual per-thread initialisation), then computes
fn same_set(c: &mut Case) {
    let (k, st) = (nthreads(c), steps(c));
    let m = modulus(&mut c.rng);
    op!(c, 4, [k, m], "{k} threads each set A={m} and compute");
    DynamicModInt::<A>::set_modulus(m);
    let b = Arc::new(Barrier::new(k));
    let seeds: Vec<u64> = (0..k).map(|_| c.rng.u64()).collect();
    let hs = seeds.into_iter().map(|s| { let b = b.clone(); std::thread::spawn(move || {
        let mut r = Rng::new(s);
        b.wait();
        let mut n = 0;
        for _ in 0..4 {
            DynamicModInt::<A>::set_modulus(m);
            n += burst::<A>(&mut r, m, st / 4 + 1, "id A, set by every thread")?;
        }
        Ok(n)
    }) }).collect();
    let rs = join(hs);
    collect(c, rs);
    c.nontrivial = true;
}
/// every thread brings the id from one modulus to the same new one at the same moment, and computes at once
fn race_set(c: &mut Case) {
    let k = if cfg!(miri) { 2 } else { c.rng.range(2, 6) };
    let n = if cfg!(miri) { 2 } else { c.rng.range(20, 120) };
    let ms: Vec<u32> = (0..n).map(|_| modulus(&mut c.rng)).collect();
    op!(c, 7, [k, n, ms[0], ms[1]], "{k} threads set A to the same new modulus at once, {n} rounds: {:?}..", &ms[..2]);
    let gate = Arc::new((AtomicU64::new(0), AtomicU64::new(0)));
    let seeds: Vec<u64> = (0..k).map(|_| c.rng.u64()).collect();
    let hs = seeds.into_iter().map(|s| { let (gate, ms) = (gate.clone(), ms.clone()); std::thread::spawn(move || {
        let mut r = Rng::new(s);
        let mut q: Result<u64, String> = Ok(0);
        // a spinning barrier: the threads leave it within nanoseconds of each other
        let meet = |t: u64, a: &AtomicU64| {
            a.fetch_add(1, Ordering::AcqRel);
            let mut spin = 0u32;
            while a.load(Ordering::Acquire) < t * k as u64 { spin += 1; if cfg!(miri) || spin > 2000 { std::thread::yield_now() } else { std::hint::spin_loop() } }
        };
        for (t, &m) in ms.iter().enumerate() {
            meet(t as u64 + 1, &gate.0);
            for _ in 0..r.below(40) { std::hint::spin_loop() }
            DynamicModInt::<A>::set_modulus(m);
            let e = burst::<A>(&mut r, m, 2, "id A, just set by this thread and by the others");
            if let Ok(n) = &mut q { match e { Ok(v) => *n += v, Err(e) => q = Err(e) } }
            meet(t as u64 + 1, &gate.1);
        }
        q
    }) }).collect();
    let rs = join(hs);
    collect(c, rs);
    c.max("rounds of racing set_modulus in one case", n as u64);
    c.nontrivial = true;
}
/// phases: all threads compute, meet at a barrier, one of them changes the modulus, and so on
fn phases(c: &mut Case) {
    let k = nthreads(c);
    let n = if cfg!(miri) { 2 } else { 6 };
    let ms: Vec<u32> = (0..n).map(|_| modulus(&mut c.rng)).collect();
    op!(c, 5, [k, ms[0], ms[1]], "{k} threads through moduli {:?}", ms);
    let b = Arc::new(Barrier::new(k));
    let seeds: Vec<u64> = (0..k).map(|_| c.rng.u64()).collect();
    let hs = seeds.into_iter().enumerate().map(|(id, s)| { let (b, ms) = (b.clone(), ms.clone()); std::thread::spawn(move || {
        let mut r = Rng::new(s);
        let mut q = Ok(0);
        for (p, &m) in ms.iter().enumerate() {
            if p % k == id { DynamicModInt::<C>::set_modulus(m) }
            b.wait();
            if q.is_ok() { q = burst::<C>(&mut r, m, if cfg!(miri) { 2 } else { 20 }, "id C in phases"); }
            b.wait();
        }
        q
    }) }).collect();
    let rs = join(hs);
    collect(c, rs);
    c.nontrivial = true;
}
/// the default id once it is set: last, because earlier workloads rely on it being unset
fn set_default(c: &mut Case) {
    let (k, st) = (nthreads(c), steps(c));
    let m = modulus(&mut c.rng);
    op!(c, 6, [k, m], "ModInt::set_modulus({m}), {k} threads");
    ModInt::set_modulus(m);
    let seeds: Vec<u64> = (0..k).map(|_| c.rng.u64()).collect();
    let rs = join(seeds.into_iter().map(|s| std::thread::spawn(move || {
        let mut r = Rng::new(s);
        burst::<rust_cp::misc::modint::DefaultId>(&mut r, m, st, "default id after set_modulus").and_then(|n| burst::<UnsetDefault>(&mut r, 998_244_353, 2, "another id on the default").map(|q| n + q))
    })).collect());
    collect(c, rs);
    c.nontrivial = true;
}
fn main() {
    run(
        &[
            Workload { name: "default", quick: 40, thorough: 200, f: default_id },
            Workload { name: "publish", quick: 3000, thorough: 60_000, f: publish },
            Workload { name: "isolate", quick: 1200, thorough: 30_000, f: isolate },
            Workload { name: "same_set", quick: 1500, thorough: 30_000, f: same_set },
            Workload { name: "race_set", quick: 400, thorough: 12_000, f: race_set },
            Workload { name: "phases", quick: 1500, thorough: 30_000, f: phases },
            Workload { name: "set_default", quick: 500, thorough: 8000, f: set_default },
        ],
        if cfg!(miri) { &[] } else { &["spawn", "barrier", "channel", "mutex", "flag", "other id changed meanwhile"] },
    )
}
