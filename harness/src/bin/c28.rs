//! C28 the debug-print macro, observed from outside: this program runs itself as a child whose
//! standard streams are captured. The child calls `de!` at many sites; the parent walks the same
//! sites and computes what the child must have printed and evaluated.
#[macro_use]
extern crate rust_cp;
use std::collections::BTreeMap;
use vmon::*;

const DEBUG: bool = cfg!(debug_assertions);
struct Ctx {
    child: bool,
    rng: Rng,
    trace: Vec<String>,                     // effects of evaluated expressions
    expected: Vec<Vec<(&'static str, String)>>, // per call: names and debug forms
    calls: u64,
    args: u64,
}
/// one `de!` site: the child executes the macro, the parent evaluates the same expressions (once, in
/// order, and only if this is a build in which the macro evaluates them)
macro_rules! site {
    ($x:ident;) => {{
        $x.calls += 1;
        if $x.child { de!(); } else if DEBUG { $x.expected.push(vec![]) }
    }};
    ($x:ident; $($e:expr),+) => {{
        $x.calls += 1;
        if $x.child { de!($($e),+); }
        else if DEBUG { let mut v = vec![]; $( v.push((stringify!($e), format!("{:?}", $e))); )+ $x.args += v.len() as u64; $x.expected.push(v) }
    }};
    ($x:ident; $($e:expr),+ ; comma) => {{
        $x.calls += 1;
        if $x.child { de!($($e),+ ,); }
        else if DEBUG { let mut v = vec![]; $( v.push((stringify!($e), format!("{:?}", $e))); )+ $x.args += v.len() as u64; $x.expected.push(v) }
    }};
}
#[derive(Debug, Clone, PartialEq)]
#[allow(dead_code)]
struct Point { x: i64, name: String, next: Option<Box<Point>> }
fn eff<T>(t: &mut Vec<String>, k: &str, v: T) -> T { t.push(k.to_string()); v }
fn add(a: i64, b: i64) -> i64 { a.wrapping_add(b) }

fn text(r: &mut Rng) -> String {
    let pool: Vec<char> = "ab {}%\"'\\\n\t=,;#é漢\u{0}".chars().collect();
    (0..r.below(12)).map(|_| *r.pick(&pool)).collect()
}
#[allow(unused_variables, unused_mut, unused_assignments)]
fn walk(x: &mut Ctx, steps: usize) {
    let mut counter = 0i64;
    let mut t: Vec<String> = vec![];
    for _ in 0..steps {
        // every random draw happens outside the macro, so that both builds and both sides agree
        let k = x.rng.below(22);
        let (a, b) = (x.rng.irange(-1000, 1000), x.rng.u64() as i64);
        let s = text(&mut x.rng);
        let v: Vec<u8> = (0..x.rng.below(6)).map(|_| x.rng.u64() as u8).collect();
        let f = (x.rng.irange(-5000, 5000) as f64) / 8.0;
        let o = if x.rng.chance(1, 2) { Some(a) } else { None };
        match k {
            0 => site!(x; a),
            1 => site!(x; a, b),
            2 => site!(x; a + b % 7, &s),
            3 => site!(x; s.len(), s.as_str(), v),
            4 => site!(x; eff(&mut t, "one", a)),
            5 => site!(x; eff(&mut t, "first", a), eff(&mut t, "second", b), eff(&mut t, "third", o)),
            6 => site!(x; { counter += 1; counter }),
            7 => site!(x; { counter += 1; counter }, { counter *= 2; counter }, counter ; comma),
            8 => site!(x; add(a, b), (a, &s, f)),
            9 => site!(x; Point { x: a, name: s.clone(), next: o.map(|q| Box::new(Point { x: q, name: String::new(), next: None })) }),
            10 => site!(x; ()),
            11 => site!(x; f, f > 0.0, 'c', "literal {} with = and , inside"),
            12 => site!(x; if a > 0 { eff(&mut t, "pos", 1) } else { eff(&mut t, "neg", -1) }),
            13 => site!(x; v.iter().map(|q| *q as u32).sum::<u32>(), v.iter().rev().collect::<Vec<_>>()),
            14 => site!(x; BTreeMap::from([(a, s.clone()), (b, "z".to_string())]) ; comma),
            15 => site!(x; o, o.is_some(), !o.is_some(), -a),
            16 => site!(x;),
            17 => site!(x; eff(&mut t, "vec", vec![a; 3]).len(), eff(&mut t, "fmt", format!("{}-{}", a, s))),
            18 => site!(x; String::from("temporary").as_str(), &v[..]),
            19 => site!(x; std::mem::replace(&mut counter, a), counter),
            20 => site!(x; a, a, a, a, a, a, a, a, a, a, a, a),
            _ => site!(x; match o { Some(q) if q > 0 => eff(&mut t, "m1", "some"), Some(_) => "neg", None => eff(&mut t, "m2", "none") }, [a; 2]),
        }
        // effects visible after the call
        t.push(format!("counter {counter}"));
    }
    x.trace = t;
}
fn new_ctx(child: bool, seed: u64) -> Ctx { Ctx { child, rng: Rng::new(seed), trace: vec![], expected: vec![], calls: 0, args: 0 } }
fn report(x: &Ctx) -> String { format!("{}\n", x.trace.join("\n")) }

fn child(seed: u64, steps: usize) {
    let mut x = new_ctx(true, seed);
    walk(&mut x, steps);
    print!("{}", report(&x));
}
fn exercise(c: &mut Case) {
    let seed = c.rng.u64() >> 1;
    let steps = if c.idx % 3 == 0 { c.rng.range(0, 3) } else { c.rng.range(1, 120) };
    op!(c, 1, [seed, steps], "child with seed {seed}, {steps} macro calls");
    let out = std::process::Command::new(std::env::current_exe().unwrap()).env("C28_CHILD", format!("{seed},{steps}")).stdin(std::process::Stdio::null()).output().unwrap();
    if !out.status.success() { violation(format!("the program calling the macro ended with {:?}: {}", out.status, String::from_utf8_lossy(&out.stderr))) }
    let mut x = new_ctx(false, seed);
    walk(&mut x, steps);
    c.ops += x.calls;
    let so = String::from_utf8(out.stdout).unwrap();
    let se = String::from_utf8_lossy(&out.stderr).into_owned();
    check_eq!(c, so, report(&x), "standard output and effects of the evaluated expressions");
    if !DEBUG {
        check_eq!(c, se, "", "standard error of a release build");
        c.hit("release children");
    } else {
        check!(c, se.is_empty() || se.ends_with('\n'), "the last line is unfinished: {se:?}");
        let lines: Vec<&str> = se.split_terminator('\n').collect();
        // the text of a long expression may itself contain line breaks
        let own = |e: &Vec<(&str, String)>| e.iter().map(|(n, _)| n.matches('\n').count()).sum::<usize>();
        let want: usize = x.expected.iter().map(|e| 1 + own(e)).sum();
        check_eq!(c, lines.len(), want, "lines on standard error for {} calls: {:?}", x.calls, se.chars().take(600).collect::<String>());
        let mut at = 0;
        for e in &x.expected {
            let l = lines[at..at + 1 + own(e)].join("\n");
            at += 1 + own(e);
            let mut rest = &l[..];
            for (name, val) in e {
                for part in [*name, val.as_str()] {
                    c.events += 1;
                    // a multi-line expression text may be shown on one line or not at all differently: compare without white space
                    let (lp, pp): (String, String) = (rest.split_whitespace().collect(), part.split_whitespace().collect());
                    if let Some(i) = rest.find(part) { rest = &rest[i + part.len()..] }
                    else if !lp.contains(&pp) { violation(format!("the line {l:?} does not show {part:?} in its place (call shows {e:?})")) }
                }
            }
            // shown once: the value is not repeated by a second evaluation
            if let [(_, v)] = &e[..] { if v.len() > 6 && !e[0].0.contains(v.as_str()) { check_eq!(c, l.matches(v.as_str()).count(), 1, "the value appears once in {:?}", l) } }
        }
        c.hit("debug children");
        c.max("calls in one child", x.calls);
    }
    c.nontrivial = steps > 0;
}
fn main() {
    if let Ok(v) = std::env::var("C28_CHILD") {
        let (a, b) = v.split_once(',').unwrap();
        return child(a.parse().unwrap(), b.parse().unwrap());
    }
    run(&[Workload { name: "children", quick: 1500, thorough: 40_000, f: exercise }], if DEBUG { &["debug children"] } else { &["release children"] })
}
