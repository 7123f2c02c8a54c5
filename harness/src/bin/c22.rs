//! C22 recursive closures vs. equivalent named functions: value, arguments in position, effect log,
//! on every later call too.
use rust_cp::misc::recursive_function::*;
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use vmon::*;

fn arity0(c: &mut Case) {
    let n = c.rng.below(30) as u64;
    let rounds = c.rng.range(1, 4);
    op!(c, 1, [n, rounds], "arity 0: countdown from {n}, {rounds} calls");
    // captured by mutable reference, by shared cell, and moved
    let mut left = n;
    let log = RefCell::new(vec![]);
    let mut f = RecursiveFunction0::new(|f: &mut dyn Callable0<u64>| -> u64 {
        log.borrow_mut().push(left);
        if left == 0 { left = n; return 0 }
        left -= 1;
        let r = f.call() + 1;
        log.borrow_mut().push(1000 + r);
        r
    });
    for _ in 0..rounds { check_eq!(c, f.call(), n, "countdown") }
    drop(f);
    let mut want = vec![];
    for _ in 0..rounds { want.extend((0..=n).rev()); want.extend((1..=n).map(|r| 1000 + r)); }
    check_eq!(c, log.into_inner(), want, "effects in order");
    let mut own = vec![n];
    let mut g = RecursiveFunction0::new(move |_: &mut dyn Callable0<(usize, u64)>| { let l = own[own.len() - 1]; own.push(l * 3 + 1); (own.len(), l) });
    let mut l = n;
    for k in 0..rounds { check_eq!(c, g.call(), (k + 2, l), "RecursiveFunction0 owning its state"); l = l * 3 + 1; }
    c.nontrivial = n > 0;
}
/// argument vector of small numbers; recursion permutes, decreases and branches
fn reference<const K: usize>(a: [i64; K], log: &mut Vec<[i64; K]>) -> i64 {
    log.push(a);
    if a[0] <= 0 { return weigh(a) }
    let mut b = a;
    b.rotate_left(1);
    if K > 1 { b[K - 1] -= 0 }
    b[0] = a[0] - 1;
    let x = reference(b, log);
    if a[0] % 3 == 0 && a[0] < 9 {
        let mut d = a;
        d.reverse();
        d[0] = a[0] - 2;
        x ^ reference(d, log).wrapping_mul(3)
    } else { x.wrapping_add(weigh(a)) }
}
fn weigh<const K: usize>(a: [i64; K]) -> i64 { a.iter().enumerate().fold(17, |h, (i, x)| (h as i64).wrapping_mul(31).wrapping_add(x.wrapping_mul(i as i64 + 7))) }
macro_rules! arity {
    ($f:ident, $k:expr, $Name:ident, $Call:ident, ($($p:ident),*), ($($i:expr),*)) => {
        fn $f(c: &mut Case) {
            let mut log: Vec<[i64; $k]> = vec![];
            let mut want_log: Vec<[i64; $k]> = vec![];
            let rounds = c.rng.range(1, 3);
            let mut calls = 0u64;
            let mut f = $Name::new(|f: &mut dyn $Call<$(ty!($p),)* i64>, $($p: i64),*| -> i64 {
                calls += 1;
                let a: [i64; $k] = [$($p),*];
                log.push(a);
                if a[0] <= 0 { return weigh(a) }
                let mut b = a;
                b.rotate_left(1);
                b[0] = a[0] - 1;
                let x = f.call($(b[$i]),*);
                if a[0] % 3 == 0 && a[0] < 9 {
                    let mut d = a;
                    d.reverse();
                    d[0] = a[0] - 2;
                    x ^ f.call($(d[$i]),*).wrapping_mul(3)
                } else { x.wrapping_add(weigh(a)) }
            });
            for _ in 0..rounds {
                let mut a = [0i64; $k];
                for x in a.iter_mut() { *x = c.rng.irange(-1000, 1000) }
                a[0] = c.rng.irange(0, 14);
                op!(c, $k, [a[0]], "{} called with {:?}", stringify!($Name), a);
                c.h_slice(&a);
                let w = reference(a, &mut want_log);
                check_eq!(c, f.call($(a[$i]),*), w, "{} {:?}", stringify!($Name), a);
                c.nontrivial |= a[0] > 0;
            }
            drop(f);
            check_eq!(c, calls, want_log.len() as u64, "number of calls");
            check!(c, log == want_log, "argument log differs at {:?}", log.iter().zip(&want_log).position(|(x, y)| x != y));
            c.hit(stringify!($Name));
            // state that the closure owns: it lives on from one call to the next
            let (mut count, mut sum, mut seen) = (0u64, c.rng.irange(-9, 9), Vec::<[i64; $k]>::new());
            let (mut wc, mut ws, mut wl) = (0u64, sum, Vec::<[i64; $k]>::new());
            let mut f = $Name::new(move |_: &mut dyn $Call<$(ty!($p),)* (u64, i64, usize, Option<[i64; $k]>)>, $($p: i64),*| {
                let a: [i64; $k] = [$($p),*];
                count += 1;
                sum = sum.wrapping_mul(3).wrapping_add(weigh(a));
                if a[0] == 0 { seen.clear() } else if a[0] < 0 { return (count, sum, seen.len(), seen.pop()) } else { seen.push(a) }
                (count, sum, seen.len(), seen.first().copied())
            });
            let n = c.rng.range(1, 8);
            for _ in 0..n {
                let mut a = [0i64; $k];
                for x in a.iter_mut() { *x = c.rng.irange(-3, 9) }
                c.h_slice(&a);
                wc += 1;
                ws = ws.wrapping_mul(3).wrapping_add(weigh(a));
                let w = if a[0] == 0 { wl.clear(); (wc, ws, 0, None) } else if a[0] < 0 { let k = wl.len(); (wc, ws, k, wl.pop()) } else { wl.push(a); (wc, ws, wl.len(), wl.first().copied()) };
                check_eq!(c, f.call($(a[$i]),*), w, "{} owning its state, called with {:?} as call number {}", stringify!($Name), a, wc);
            }
            c.hit("owned state carried from call to call");
        }
    };
}
macro_rules! ty { ($p:ident) => { i64 } }
arity!(arity1, 1, RecursiveFunction, Callable, (a), (0));
arity!(arity2, 2, RecursiveFunction2, Callable2, (a, b), (0, 1));
arity!(arity3, 3, RecursiveFunction3, Callable3, (a, b, d), (0, 1, 2));
arity!(arity4, 4, RecursiveFunction4, Callable4, (a, b, d, e), (0, 1, 2, 3));
arity!(arity5, 5, RecursiveFunction5, Callable5, (a, b, d, e, g), (0, 1, 2, 3, 4));
arity!(arity6, 6, RecursiveFunction6, Callable6, (a, b, d, e, g, h), (0, 1, 2, 3, 4, 5));
arity!(arity7, 7, RecursiveFunction7, Callable7, (a, b, d, e, g, h, i), (0, 1, 2, 3, 4, 5, 6));
arity!(arity8, 8, RecursiveFunction8, Callable8, (a, b, d, e, g, h, i, j), (0, 1, 2, 3, 4, 5, 6, 7));
arity!(arity9, 9, RecursiveFunction9, Callable9, (a, b, d, e, g, h, i, j, k), (0, 1, 2, 3, 4, 5, 6, 7, 8));

/// depth-first search over a random graph, with captured visited set and post-order
fn dfs(c: &mut Case) {
    let n = c.rng.range(1, 40);
    let m = c.rng.below(3 * n);
    let e = gen::digraph(&mut c.rng, n, m);
    let g = gen::adj(n, &e);
    op!(c, 20, [n], "depth-first search of {:?}", g);
    for r in &g { c.h(r.len() as u64); for &v in r { c.h(v as u64) } }
    fn named(u: usize, g: &[Vec<usize>], vis: &mut [bool], out: &mut Vec<(bool, usize)>) -> usize {
        if vis[u] { return 0 }
        vis[u] = true;
        out.push((true, u));
        let mut s = 1;
        for &v in &g[u] { s += named(v, g, vis, out) }
        out.push((false, u));
        s
    }
    let (mut vis, mut out) = (vec![false; n], vec![]);
    let (mut wv, mut wo) = (vec![false; n], vec![]);
    let mut f = RecursiveFunction::new(|f: &mut dyn Callable<usize, usize>, u: usize| -> usize {
        if vis[u] { return 0 }
        vis[u] = true;
        out.push((true, u));
        let mut s = 1;
        for &v in &g[u] { s += f.call(v) }
        out.push((false, u));
        s
    });
    for s in 0..n { check_eq!(c, f.call(s), named(s, &g, &mut wv, &mut wo), "vertices found from {}", s) }
    drop(f);
    check_eq!(c, out, wo, "entry/exit sequence");
    c.nontrivial = n > 1;
}
/// memoised two-argument recursion with owned arguments and results
fn memo(c: &mut Case) {
    let (a, b): (Vec<u8>, Vec<u8>) = ((0..c.rng.below(9)).map(|_| c.rng.below(3) as u8).collect(), (0..c.rng.below(9)).map(|_| c.rng.below(3) as u8).collect());
    op!(c, 21, [a.len(), b.len()], "longest common subsequence of {:?} and {:?}", a, b);
    c.h_slice(&a);
    c.h_slice(&b);
    let mut cache: HashMap<(usize, usize), String> = HashMap::new();
    let hits = Cell::new(0);
    let mut f = RecursiveFunction2::new(|f: &mut dyn Callable2<usize, usize, String>, i: usize, j: usize| -> String {
        if i == a.len() || j == b.len() { return String::new() }
        if let Some(s) = cache.get(&(i, j)) { hits.set(hits.get() + 1); return s.clone() }
        let r = if a[i] == b[j] { format!("{}{}", a[i], f.call(i + 1, j + 1)) } else {
            let (x, y) = (f.call(i + 1, j), f.call(i, j + 1));
            if x.len() >= y.len() { x } else { y }
        };
        cache.insert((i, j), r.clone());
        r
    });
    let got = f.call(0, 0);
    let again = f.call(0, 0);
    drop(f);
    // table
    let mut t = vec![vec![0; b.len() + 1]; a.len() + 1];
    for i in (0..a.len()).rev() { for j in (0..b.len()).rev() { t[i][j] = if a[i] == b[j] { t[i + 1][j + 1] + 1 } else { t[i + 1][j].max(t[i][j + 1]) } } }
    check_eq!(c, got.len(), t[0][0], "length of {:?}", got);
    check_eq!(c, again, got, "second call");
    let sub = |s: &[u8]| { let mut k = 0; let g = got.as_bytes(); for x in s { if k < g.len() && g[k] == b'0' + x { k += 1 } } k == g.len() };
    check!(c, sub(&a) && sub(&b), "{:?} is not a common subsequence", got);
    c.nontrivial = !a.is_empty() && !b.is_empty();
}
/// arguments and results that own memory, passed by value through three levels; borrowed arguments
fn owned(c: &mut Case) {
    let n = c.rng.below(12);
    let v: Vec<String> = (0..n).map(|i| format!("{i}:{}", c.rng.below(100))).collect();
    op!(c, 22, [n], "owned arguments {:?}", v);
    for s in &v { for b in s.bytes() { c.h(b as u64) } }
    let mut f = RecursiveFunction3::new(|f: &mut dyn Callable3<Vec<String>, Option<Box<usize>>, String, (String, usize)>, mut v: Vec<String>, d: Option<Box<usize>>, acc: String| {
        let depth = d.map_or(0, |b| *b);
        match v.pop() { None => (acc, depth), Some(s) => f.call(v, Some(Box::new(depth + 1)), acc + &s + ";") }
    });
    let want: String = v.iter().rev().map(|s| s.clone() + ";").collect();
    check_eq!(c, f.call(v.clone(), None, String::new()), (want.clone(), n), "owned arguments");
    check_eq!(c, f.call(v.clone(), Some(Box::new(5)), "x".into()), ("x".to_string() + &want, n + 5), "owned arguments, second call");
    let data: Vec<i64> = (0..n as i64).map(|i| i * i - 20).collect();
    let mut g = RecursiveFunction2::new(|f: &mut dyn Callable2<&[i64], bool, Option<i64>>, s: &[i64], mx: bool| -> Option<i64> {
        match s { [] => None, [x] => Some(*x), _ => { let (l, r) = s.split_at(s.len() / 2); let (a, b) = (f.call(l, mx), f.call(r, mx)); if mx { a.max(b) } else { Some(a.unwrap().min(b.unwrap())) } } }
    });
    check_eq!(c, g.call(&data, true), data.iter().max().copied(), "maximum by halves");
    check_eq!(c, g.call(&data, false), data.iter().min().copied(), "minimum by halves");
    c.nontrivial = n > 1;
}
/// branching recursion on named functions with known values
fn classic(c: &mut Case) {
    let n = c.rng.below(18) as u64;
    op!(c, 23, [n], "fibonacci, hanoi, ackermann for {n}");
    let mut calls = 0u64;
    let mut fib = RecursiveFunction::new(|f: &mut dyn Callable<u64, u64>, n: u64| { calls += 1; if n < 2 { n } else { f.call(n - 1) + f.call(n - 2) } });
    let (mut a, mut b) = (0, 1);
    for _ in 0..n { (a, b) = (b, a + b) }
    check_eq!(c, fib.call(n), a, "fibonacci({})", n);
    drop(fib);
    check_eq!(c, calls, 2 * b - 1, "calls of fibonacci({})", n);
    let d = (n % 7) as u32;
    let mut moves = vec![];
    let mut h = RecursiveFunction4::new(|f: &mut dyn Callable4<u32, char, char, char, ()>, k: u32, x: char, y: char, z: char| { if k > 0 { f.call(k - 1, x, z, y); moves.push((k, x, z)); f.call(k - 1, y, x, z) } });
    h.call(d, 'a', 'b', 'c');
    drop(h);
    let mut pegs: HashMap<char, Vec<u32>> = HashMap::from([('a', (1..=d).rev().collect()), ('b', vec![]), ('c', vec![])]);
    for (k, x, z) in &moves { let t = pegs.get_mut(x).unwrap().pop(); check_eq!(c, t, Some(*k), "hanoi move"); let q = pegs.get_mut(z).unwrap(); check!(c, q.last().map_or(true, |y| y > k), "hanoi order"); q.push(*k) }
    check_eq!((*c), (moves.len(), pegs[&'c'].len()), ((1usize << d) - 1, d as usize), "hanoi of {}", d);
    let mut ack = RecursiveFunction2::new(|f: &mut dyn Callable2<u64, u64, u64>, m: u64, n: u64| if m == 0 { n + 1 } else if n == 0 { f.call(m - 1, 1) } else { let t = f.call(m, n - 1); f.call(m - 1, t) });
    let k = n % 5;
    check_eq!(c, [ack.call(0, k), ack.call(1, k), ack.call(2, k), ack.call(3, k)], [k + 1, k + 2, 2 * k + 3, (1 << (k + 3)) - 3], "ackermann(0..4, {})", k);
    c.nontrivial = n > 1;
}
fn deep(c: &mut Case) {
    let n = if c.exact > 0 { c.exact as u64 } else if c.giant { gen::giant_n(c) as u64 } else if c.idx % 8 == 0 { gen::huge_n(&mut c.rng) as u64 } else { c.rng.range(1000, 30_000) as u64 };
    op!(c, 24, [n], "depth {n}");
    let mut seen = vec![];
    let mut f = RecursiveFunction::new(|f: &mut dyn Callable<u64, u64>, k: u64| { seen.push(k); let r = if k == 0 { 0 } else { f.call(k - 1) + k }; seen.push(r); r });
    check_eq!(c, f.call(n), n * (n + 1) / 2, "sum to {}", n);
    drop(f);
    check!(c, seen.len() as u64 == 2 * n + 2 && seen[..=n as usize].iter().rev().copied().eq(0..=n), "captured log of the descent");
    c.nontrivial = true;
}
/// the same around and above 2^20 elements
fn deep_giant(c: &mut Case) {
    c.giant = true;
    deep(c)
}
/// very many calls of one object, and of one activation
fn marathon(c: &mut Case) {
    let calls = c.rng.range(140_000, 200_000) as u64;
    op!(c, 25, [calls], "{calls} calls of one object, then {calls} calls from one activation");
    let mut log = 0u64;
    let mut f = RecursiveFunction::new(|f: &mut dyn Callable<u64, u64>, k: u64| {
        log += 1;
        if k >= 1000 { (0..k).fold(0u64, |a, i| a.wrapping_mul(31).wrapping_add(f.call(i % 5))) } else if k == 0 { 1 } else { 2 * f.call(k - 1) + 1 }
    });
    for k in 0..calls { check_eq!(c, f.call(k % 9), (2 << (k % 9)) - 1, "call number {}", k); c.ops += 1; }
    check_eq!(c, f.call(calls), (0..calls).fold(0u64, |a, i| a.wrapping_mul(31).wrapping_add((2 << (i % 5)) - 1)), "an activation that calls itself {} times", calls);
    drop(f);
    let want = (0..calls).map(|k| k % 9 + 1).sum::<u64>() + 1 + (0..calls).map(|k| k % 5 + 1).sum::<u64>();
    check_eq!(c, log, want, "activations in all");
    c.nontrivial = true;
}
/// one case for every size
fn sizes(c: &mut Case) {
    c.exact = c.idx as usize + 1;
    deep(c)
}
fn main() {
    run(
        &[
            Workload { name: "arity0", quick: 15_000, thorough: 240_000, f: arity0 },
            Workload { name: "arity1", quick: 15_000, thorough: 240_000, f: arity1 },
            Workload { name: "arity2", quick: 15_000, thorough: 240_000, f: arity2 },
            Workload { name: "arity3", quick: 15_000, thorough: 240_000, f: arity3 },
            Workload { name: "arity4", quick: 15_000, thorough: 240_000, f: arity4 },
            Workload { name: "arity5", quick: 15_000, thorough: 240_000, f: arity5 },
            Workload { name: "arity6", quick: 15_000, thorough: 240_000, f: arity6 },
            Workload { name: "arity7", quick: 15_000, thorough: 240_000, f: arity7 },
            Workload { name: "arity8", quick: 15_000, thorough: 240_000, f: arity8 },
            Workload { name: "arity9", quick: 15_000, thorough: 240_000, f: arity9 },
            Workload { name: "dfs", quick: 50_000, thorough: 800_000, f: dfs },
            Workload { name: "memo", quick: 50_000, thorough: 800_000, f: memo },
            Workload { name: "owned", quick: 30_000, thorough: 400_000, f: owned },
            Workload { name: "classic", quick: 10_000, thorough: 80_000, f: classic },
            Workload { name: "deep", quick: 72, thorough: 900, f: deep },
            Workload { name: "sizes", quick: 3000, thorough: 9000, f: sizes },
            Workload { name: "giant", quick: 2, thorough: 24, f: deep_giant },
            Workload { name: "marathon", quick: 4, thorough: 60, f: marathon },
        ],
        &["RecursiveFunction", "RecursiveFunction2", "RecursiveFunction3", "RecursiveFunction4", "RecursiveFunction5", "RecursiveFunction6", "RecursiveFunction7", "RecursiveFunction8", "RecursiveFunction9", "owned state carried from call to call"],
    )
}
