//! Runtime-monitoring core: deterministic workloads, event hashing, online oracles,
//! replay, hang/crash journal. No dependencies; runs natively, under the sanitizers and Miri.
#![allow(clippy::all)]
#[macro_use]
pub mod modmac;
pub mod gen;
pub mod models;
pub mod modp;

use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;

// ---------------------------------------------------------------- PRNG
#[derive(Clone)]
pub struct Rng([u64; 4]);
pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut s = [0; 4];
        let mut x = seed;
        for v in s.iter_mut() {
            x = mix(x);
            *v = x;
        }
        Rng(s)
    }
    pub fn u64(&mut self) -> u64 {
        let s = &mut self.0;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
    pub fn u128(&mut self) -> u128 {
        (self.u64() as u128) << 64 | self.u64() as u128
    }
    /// uniform in 0..n (n > 0)
    pub fn below(&mut self, n: usize) -> usize {
        assert!(n > 0);
        ((self.u64() as u128 * n as u128) >> 64) as usize
    }
    /// uniform in a..=b
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }
    pub fn irange(&mut self, a: i64, b: i64) -> i64 {
        let w = (b as i128 - a as i128 + 1) as u128;
        (a as i128 + (self.u128() % w) as i128) as i64
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            v.swap(i, self.below(i + 1));
        }
    }
    pub fn perm(&mut self, n: usize) -> Vec<usize> {
        let mut p: Vec<usize> = (0..n).collect();
        self.shuffle(&mut p);
        p
    }
    /// magnitude-uniform integer: random bit length up to `bits`
    pub fn bits(&mut self, bits: u32) -> u128 {
        let k = self.below(bits as usize + 1) as u32;
        if k == 0 {
            0
        } else {
            let r = self.u128() >> (128 - k);
            match self.below(6) {
                0 => r | ((1u128 << (k - 1)) - 1),           // ..111
                1 => 1u128 << (k - 1),                        // power of two
                _ => r,
            }
        }
    }
}

// ---------------------------------------------------------------- violations
pub struct Violation(pub String);
pub fn violation(msg: String) -> ! {
    std::panic::panic_any(Violation(msg))
}
#[macro_export]
macro_rules! check {
    ($c:expr, $cond:expr, $($arg:tt)+) => {{
        $c.events += 1;
        if !$cond { $crate::violation(format!($($arg)+)) }
    }};
}
#[macro_export]
macro_rules! check_eq {
    ($c:expr, $got:expr, $want:expr, $($arg:tt)+) => {{
        $c.events += 1;
        let (g, w) = (&$got, &$want);
        if g != w { $crate::violation(format!("{}: got {:?}, want {:?}", format!($($arg)+), g, w)) }
    }};
}
/// log an event of the history: hashed always, rendered only when replaying
#[macro_export]
macro_rules! op {
    ($c:expr, $tag:expr, [$($v:expr),* $(,)?], $($arg:tt)+) => {{
        $c.h($tag as u64);
        $( $c.h($v as u64); )*
        $c.ops += 1;
        if $c.verbose { let s = format!($($arg)+); $c.push_log(s); }
    }};
}

// ---------------------------------------------------------------- case
#[derive(Clone, Copy, PartialEq)]
pub enum Tier {
    Quick,
    Thorough,
}
pub struct Case {
    pub rng: Rng,
    pub idx: u64,
    pub total: u64,
    pub tier: Tier,
    pub hash: u64,
    pub ops: u64,
    pub events: u64,
    pub nontrivial: bool,
    pub giant: bool,
    /// the size to use, if not 0
    pub exact: usize,
    pub verbose: bool,
    pub log: Vec<String>,
    pub hits: BTreeMap<&'static str, u64>,
    pub maxes: BTreeMap<&'static str, u64>,
}
impl Case {
    pub fn h(&mut self, v: u64) {
        self.hash = (self.hash ^ v).wrapping_mul(0x0000_0100_0000_01B3).rotate_left(23) ^ v.wrapping_mul(0x9E37_79B9_7F4A_7C15);
    }
    pub fn h_slice<T: Copy + Into<i128>>(&mut self, v: &[T]) {
        self.h(v.len() as u64);
        for x in v {
            let y: i128 = (*x).into();
            self.h(y as u64 ^ (y >> 64) as u64);
        }
    }
    pub fn hit(&mut self, f: &'static str) {
        *self.hits.entry(f).or_insert(0) += 1;
    }
    pub fn max(&mut self, f: &'static str, v: u64) {
        let e = self.maxes.entry(f).or_insert(0);
        *e = (*e).max(v);
    }
    pub fn push_log(&mut self, s: String) {
        if self.log.len() < 4000 {
            let s = if s.len() > 4000 { format!("{}… ({} bytes)", s.chars().take(1500).collect::<String>(), s.len()) } else { s };
            self.log.push(s);
        }
    }
    /// size with small, power-of-two-boundary, medium and log-uniform classes; may be 0
    pub fn size(&mut self, max: usize) -> usize {
        let r = &mut self.rng;
        let n = match r.below(12) {
            0..=4 => r.below(13),
            5..=7 => {
                let lim = (usize::BITS - max.leading_zeros()) as usize;
                let k = r.below(lim.max(1));
                ((1usize << k) + r.below(3)).saturating_sub(1)
            }
            8..=9 => r.below(100),
            _ => {
                let lim = (max.max(2) as f64).ln();
                (((r.u64() >> 11) as f64 / (1u64 << 53) as f64) * lim).exp() as usize
            }
        };
        n.min(max)
    }
    pub fn size1(&mut self, max: usize) -> usize {
        self.size(max).max(1)
    }
    /// l <= r <= n with bias to boundaries
    pub fn range(&mut self, n: usize) -> (usize, usize) {
        let r = &mut self.rng;
        let mut a = r.below(n + 1);
        let mut b = r.below(n + 1);
        match r.below(12) {
            0 => a = 0,
            1 => b = n,
            2 => { a = 0; b = n }
            3 => b = a,
            4 => b = (a + 1).min(n),
            5 => { let k = r.below(usize::BITS as usize - n.leading_zeros() as usize + 1); let w = (1usize << k).min(n.max(1)); a = a / w * w; b = (a + w).min(n) }
            _ => {}
        }
        if a > b { (b, a) } else { (a, b) }
    }
}

pub struct Workload {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub f: fn(&mut Case),
}

// ---------------------------------------------------------------- panics
static LAST_PANIC: Mutex<Option<(String, String, bool)>> = Mutex::new(None); // msg, location, from_library

fn panic_text(p: &(dyn std::any::Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else {
        "<non-string panic payload>".into()
    }
}
pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        if info.payload().downcast_ref::<Violation>().is_some() {
            return;
        }
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let file = info.location().map(|l| l.file().to_string()).unwrap_or_default();
        let lib = if file.starts_with("/repo/") {
            true
        } else if file.starts_with("src/") || file.contains("/verif/harness/") || file.contains("harness/src/") {
            false
        } else if std::env::var("VMON_NOBT").is_ok() || cfg!(miri) {
            true
        } else {
            // inside the standard library: attribute to the innermost of our two crates
            let bt = std::backtrace::Backtrace::force_capture().to_string();
            let a = bt.find("rust_cp::");
            let b = bt.lines().skip_while(|l| !l.contains("begin_panic_handler") && !l.contains("rust_begin_unwind")).find(|l| l.contains("rust_cp::") || l.contains("vmon::") || l.contains(": c"));
            match (a, b) {
                (Some(_), Some(l)) => l.contains("rust_cp::"),
                (Some(_), None) => true,
                _ => false,
            }
        };
        *LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()) = Some((panic_text(info.payload()), loc, lib));
    }));
}
/// Runs `f`, which is expected to panic. Ok(text) if it did, Err(value) if it returned.
pub fn expect_panic<R>(f: impl FnOnce() -> R) -> Result<String, R> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Err(v),
        Err(p) => {
            if p.is::<Violation>() {
                std::panic::resume_unwind(p)
            }
            Ok(panic_text(&*p))
        }
    }
}

// ---------------------------------------------------------------- CPU clock, journal
#[cfg(not(miri))]
pub fn cpu_ns() -> u64 {
    #[repr(C)]
    struct Ts {
        s: i64,
        n: i64,
    }
    extern "C" {
        fn clock_gettime(id: i32, t: *mut Ts) -> i32;
    }
    let mut t = Ts { s: 0, n: 0 };
    unsafe { clock_gettime(2, &mut t) };
    t.s as u64 * 1_000_000_000 + t.n as u64
}
#[cfg(miri)]
pub fn cpu_ns() -> u64 {
    0
}

static CUR: AtomicU64 = AtomicU64::new(u64::MAX); // sequence number of the running case
static CUR_START: AtomicU64 = AtomicU64::new(0);
static CASE_LIMIT: AtomicU64 = AtomicU64::new(u64::MAX >> 32);
/// the running case may use at most so many seconds of CPU time (never more than --cpu-limit)
pub fn limit_case(seconds: u64) {
    CASE_LIMIT.store(seconds, Ordering::SeqCst)
}

pub struct Opts {
    pub seed: u64,
    pub tier: Tier,
    pub shard: u64,
    pub nshards: u64,
    pub out: Option<String>,
    pub journal: Option<String>,
    pub only: Option<(String, u64)>,
    pub scale: f64,
    pub cpu_limit: u64,
    pub profile: &'static str,
    pub skip: Vec<String>,
    pub workload: Option<String>,
    pub count: Option<u64>,
}
pub fn parse_opts() -> Opts {
    let mut o = Opts { seed: 1, tier: Tier::Quick, shard: 0, nshards: 1, out: None, journal: None, only: None, scale: 1.0, cpu_limit: 100, profile: if cfg!(debug_assertions) { "checked" } else { "fast" }, skip: vec![], workload: None, count: None };
    let a: Vec<String> = std::env::args().skip(1).collect();
    let mut i = 0;
    while i < a.len() {
        let v = a.get(i + 1).cloned().unwrap_or_default();
        match a[i].as_str() {
            "--seed" => o.seed = v.parse().unwrap(),
            "--tier" => o.tier = if v == "thorough" { Tier::Thorough } else { Tier::Quick },
            "--shard" => {
                let (x, y) = v.split_once('/').unwrap();
                o.shard = x.parse().unwrap();
                o.nshards = y.parse().unwrap();
            }
            "--out" => o.out = Some(v),
            "--journal" => o.journal = Some(v),
            "--only" => {
                let (x, y) = v.rsplit_once(':').unwrap();
                o.only = Some((x.into(), y.parse().unwrap()));
            }
            "--scale" => o.scale = v.parse().unwrap(),
            "--workload" => o.workload = Some(v),
            "--count" => o.count = Some(v.parse().unwrap()),
            "--skip" => o.skip.push(v),
            "--cpu-limit" => o.cpu_limit = v.parse().unwrap(),
            x => panic!("unknown option {x}"),
        }
        i += 2;
    }
    o
}

pub fn jstr(s: &str) -> String {
    let mut r = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => r.push_str("\\\""),
            '\\' => r.push_str("\\\\"),
            '\n' => r.push_str("\\n"),
            c if (c as u32) < 32 => r.push_str(&format!("\\u{:04x}", c as u32)),
            c => r.push(c),
        }
    }
    r.push('"');
    r
}
fn jmap(m: &BTreeMap<&'static str, u64>) -> String {
    format!("{{{}}}", m.iter().map(|(k, v)| format!("{}:{}", jstr(k), v)).collect::<Vec<_>>().join(","))
}
fn jlist(v: &[String]) -> String {
    format!("[{}]", v.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(","))
}

enum Outcome {
    Ok,
    Violated(String),
    Harness(String),
}

fn run_case(w: &Workload, idx: u64, total: u64, o: &Opts, verbose: bool) -> (Case, Outcome) {
    let name_h = w.name.bytes().fold(0u64, |a, b| mix(a ^ b as u64));
    let seed = mix(o.seed) ^ name_h ^ mix(idx ^ 0x5555) ^ if o.profile == "fast" { 0xABCD_EF01_2345 } else { 0 };
    let mut c = Case { rng: Rng::new(seed), idx, total, tier: o.tier, hash: name_h, ops: 0, events: 0, nontrivial: false, giant: false, exact: 0, verbose, log: vec![], hits: BTreeMap::new(), maxes: BTreeMap::new() };
    *LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()) = None;
    let r = catch_unwind(AssertUnwindSafe(|| (w.f)(&mut c)));
    let out = match r {
        Ok(()) => Outcome::Ok,
        Err(p) => match p.downcast::<Violation>() {
            Ok(v) => Outcome::Violated(v.0),
            Err(p) => {
                let lp = LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()).take();
                match lp {
                    Some((m, loc, true)) => Outcome::Violated(format!("the library panicked on in-contract input: {m} (at {loc})")),
                    Some((m, loc, false)) => Outcome::Harness(format!("panic in the harness: {m} (at {loc})")),
                    None => Outcome::Harness(format!("panic with no record: {}", panic_text(&*p))),
                }
            }
        },
    };
    (c, out)
}

/// Entry point of every monitor binary. `required`: workload features that must have been
/// exercised (properties of the generated inputs, never of the code's answers).
pub fn run(workloads: &'static [Workload], required: &'static [&'static str]) {
    if std::env::args().nth(1).as_deref() == Some("--list") {
        for w in workloads {
            println!("{}", w.name);
        }
        return;
    }
    install_hook();
    let o = parse_opts();
    if cfg!(miri) {
        std::process::exit(run_inner(workloads, required, &o));
    }
    let limit = o.cpu_limit;
    if limit > 0 {
        let (mut seen, mut since) = (u64::MAX, std::time::Instant::now());
        std::thread::spawn(move || loop {
            std::thread::sleep(std::time::Duration::from_millis(200));
            let id = CUR.load(Ordering::SeqCst);
            if id == u64::MAX {
                continue;
            }
            let st = CUR_START.load(Ordering::SeqCst);
            let now = cpu_ns();
            if CUR.load(Ordering::SeqCst) == id && now.saturating_sub(st) > limit.min(CASE_LIMIT.load(Ordering::SeqCst)) * 1_000_000_000 {
                let limit = limit.min(CASE_LIMIT.load(Ordering::SeqCst));
                eprintln!("VMON-HANG case sequence {id}: more than {limit} s of CPU time");
                std::process::exit(97);
            }
            // blocked rather than busy: the same case has been running for twice as long by the wall clock
            if id != seen {
                seen = id;
                since = std::time::Instant::now();
            } else if since.elapsed().as_secs() > 2 * limit {
                eprintln!("VMON-HANG case sequence {id}: no end after {} s", 2 * limit);
                std::process::exit(97);
            }
        });
    }
    let h = std::thread::Builder::new().stack_size(1 << 30).spawn(move || run_inner(workloads, required, &o)).unwrap();
    std::process::exit(h.join().unwrap_or(3));
}

fn run_inner(workloads: &'static [Workload], required: &'static [&'static str], o: &Opts) -> i32 {
    let jf = o.journal.as_ref().map(|p| std::fs::File::create(p).unwrap());
    let mut hits: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut maxes: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut hashes: HashSet<u64> = HashSet::new();
    let (mut cases, mut ops, mut events, mut nontrivial, mut max_cpu) = (0u64, 0u64, 0u64, 0u64, 0u64);
    let mut samples: Vec<String> = vec![];
    let mut per: Vec<String> = vec![];
    let mut viol: Option<String> = None;
    let mut harness_err: Option<String> = None;
    let mut seq = 0u64;
    'all: for w in workloads {
        if o.skip.iter().any(|s| s == w.name || w.name.starts_with(&format!("{s}-"))) || o.workload.as_ref().is_some_and(|s| s != w.name) {
            continue;
        }
        let full = if o.tier == Tier::Thorough { w.thorough } else { w.quick };
        let total = if let Some(n) = o.count { n } else if o.scale == 1.0 { full } else { ((full as f64 * o.scale).ceil() as u64).max(1) };
        let range: Vec<u64> = match &o.only {
            Some((n, i)) => {
                if n != w.name {
                    continue;
                }
                vec![*i]
            }
            // a part of a workload is spread over the whole of it
            None => (0..total).filter(|i| i % o.nshards == o.shard).map(|i| {
                if total >= full || o.count.is_some() || cfg!(miri) { return i }
                let (lo, hi) = ((i as u128 * full as u128 / total as u128) as u64, ((i + 1) as u128 * full as u128 / total as u128) as u64);
                lo + mix(o.seed ^ i << 20) % (hi - lo)
            }).collect(),
        };
        let t0 = cpu_ns();
        let mut cnt = 0u64;
        for idx in range {
            seq += 1;
            if let Some(f) = &jf {
                #[cfg(unix)]
                {
                    use std::os::unix::fs::FileExt;
                    let s = format!("{}:{:<12}\n", w.name, idx);
                    let _ = f.write_at(s.as_bytes(), 0);
                    let _ = f.set_len(s.len() as u64);
                }
            }
            let st = cpu_ns();
            limit_case(u64::MAX >> 32);
            CUR_START.store(st, Ordering::SeqCst);
            CUR.store(seq, Ordering::SeqCst);
            let (c, out) = run_case(w, idx, total, o, o.only.is_some());
            CUR.store(u64::MAX, Ordering::SeqCst);
            max_cpu = max_cpu.max(cpu_ns() - st);
            cases += 1;
            cnt += 1;
            ops += c.ops;
            events += c.events;
            for (k, v) in &c.hits {
                *hits.entry(k).or_insert(0) += v;
            }
            for (k, v) in &c.maxes {
                let e = maxes.entry(k).or_insert(0);
                *e = (*e).max(*v);
            }
            if c.nontrivial {
                nontrivial += 1;
                hashes.insert(c.hash);
            }
            match out {
                Outcome::Ok => {
                    if cnt == 3 && o.shard == 0 && samples.len() < 40 && !cfg!(miri) {
                        let (c2, _) = run_case(w, idx, total, o, true);
                        let s = c2.log.join("; ");
                        samples.push(format!("{}:{} [{}] {}", w.name, idx, o.profile, s.chars().take(500).collect::<String>()));
                    }
                }
                Outcome::Violated(m) => {
                    limit_case(u64::MAX >> 32);
                    CUR_START.store(cpu_ns(), Ordering::SeqCst);
                    CUR.store(seq, Ordering::SeqCst);
                    let (c2, out2) = run_case(w, idx, total, o, true);
                    CUR.store(u64::MAX, Ordering::SeqCst);
                    let rep = matches!(&out2, Outcome::Violated(_));
                    viol = Some(format!(
                        "{{\"workload\":{},\"case\":{},\"profile\":{},\"seed\":{},\"tier\":{},\"message\":{},\"reproduced\":{},\"history\":{}}}",
                        jstr(w.name), idx, jstr(o.profile), o.seed, jstr(if o.tier == Tier::Quick { "quick" } else { "thorough" }), jstr(&m), rep, jlist(&c2.log)
                    ));
                    break 'all;
                }
                Outcome::Harness(m) => {
                    harness_err = Some(format!("{}:{}: {}", w.name, idx, m));
                    break 'all;
                }
            }
        }
        per.push(format!("{}:{{\"cases\":{},\"cpu_ms\":{}}}", jstr(w.name), cnt, (cpu_ns() - t0) / 1_000_000));
    }
    let missing: Vec<String> = if o.only.is_none() && o.workload.is_none() && viol.is_none() { required.iter().filter(|r| !hits.contains_key(*r)).map(|s| s.to_string()).collect() } else { vec![] };
    let mut hs: Vec<u64> = hashes.into_iter().collect();
    hs.sort();
    let json = format!(
        "{{\"profile\":{},\"cases\":{},\"ops\":{},\"events\":{},\"nontrivial\":{},\"max_case_cpu_us\":{},\"hits\":{},\"maxes\":{},\"per\":{{{}}},\"samples\":{},\"missing\":{},\"violation\":{},\"harness_error\":{},\"hashes_hex\":{}}}",
        jstr(o.profile), cases, ops, events, nontrivial, max_cpu / 1000, jmap(&hits), jmap(&maxes), per.join(","), jlist(&samples), jlist(&missing),
        viol.clone().unwrap_or("null".into()), harness_err.as_ref().map(|s| jstr(s)).unwrap_or("null".into()),
        jstr(&hs.iter().map(|h| format!("{h:016x}")).collect::<String>())
    );
    match &o.out {
        Some(p) => std::fs::File::create(p).unwrap().write_all(json.as_bytes()).unwrap(),
        None => {
            let j = if json.len() > 3000 && o.only.is_none() { format!("cases={cases} ops={ops} events={events} nontrivial={nontrivial} distinct={} max_cpu_us={} per={:?} hits={} maxes={} missing={:?}", hs.len(), max_cpu / 1000, per, jmap(&hits), jmap(&maxes), missing) } else { json };
            println!("{j}");
        }
    }
    if let Some(v) = viol {
        eprintln!("VMON-VIOLATION {v}");
        return 1;
    }
    if let Some(h) = harness_err {
        eprintln!("VMON-HARNESS-ERROR {h}");
        return 2;
    }
    0
}
