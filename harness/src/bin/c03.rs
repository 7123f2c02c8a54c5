//! C03 segment tree vs. sequential folds over free, hashed and built-in monoids.
use rust_cp::data_structure::segtree::Segtree;
use rust_cp::misc::monoids::*;
use rust_cp::traits::monoid::Monoid;
use std::fmt::Debug;
use vmon::models::*;
use vmon::*;

fn fold<M: Monoid>(a: &[M::S]) -> M::S {
    a.iter().fold(M::identity(), |x, y| M::binary_operation(&x, y))
}
/// generic history driver. `preds`: produces a monotone predicate true on the identity.
fn history<M: Monoid>(c: &mut Case, maxn: usize, maxops: usize, gen: &mut dyn FnMut(&mut Rng) -> M::S, preds: &mut dyn FnMut(&mut Rng, usize) -> (String, Box<dyn Fn(&M::S) -> bool>))
where
    M::S: PartialEq + Debug + 'static,
{
    let n = if c.giant { c.rng.range(1, 100) } else { c.size(maxn) };
    let ctor = c.rng.below(3);
    let mut a: Vec<M::S>;
    let mut t: Segtree<M>;
    match ctor {
        0 => {
            a = (0..n).map(|_| M::identity()).collect();
            t = Segtree::new(n);
        }
        1 if n == 0 => {
            a = vec![];
            t = Segtree::default();
        }
        _ => {
            a = (0..n).map(|_| gen(&mut c.rng)).collect();
            t = a.clone().into();
        }
    }
    op!(c, 1, [n, ctor], "construct n={n} {:?}", a);
    let nops = if c.giant { c.rng.range(140_000, 200_000) } else { c.rng.range(1, maxops.min(10 + 2 * n)) };
    let (mut sets, mut wide) = (0, 0);
    for _ in 0..nops {
        match c.rng.below(9) {
            0 | 1 if n > 0 => {
                let p = c.rng.below(n);
                let x = gen(&mut c.rng);
                op!(c, 2, [p], "set({p},{:?})", x);
                a[p] = x.clone();
                t.set(p, x);
                sets += 1;
            }
            2 if n > 0 => {
                let p = c.rng.below(n);
                op!(c, 3, [p], "get({p})");
                check_eq!(c, t.get(p), a[p], "get({})", p);
            }
            3 | 4 => {
                let (l, r) = c.range(n);
                op!(c, 4, [l, r], "prod({l},{r})");
                wide += (r - l > 1) as u64;
                check_eq!(c, t.prod(l, r), fold::<M>(&a[l..r]), "prod({},{}) of n={}", l, r, n);
            }
            5 => {
                op!(c, 5, [], "all_prod");
                check_eq!(c, t.all_prod(), fold::<M>(&a), "all_prod of n={}", n);
            }
            6 | 7 => {
                let l = match c.rng.below(5) { 0 => 0, 1 => n, _ => c.rng.below(n + 1) };
                let (mut name, mut f) = preds(&mut c.rng, n);
                if n <= 256 && c.rng.chance(1, 2) {
                    let mut folds = vec![M::identity()];
                    for x in &a[l..] { folds.push(M::binary_operation(folds.last().unwrap(), x)) }
                    let k = c.rng.below(n - l + 1);
                    if let Some(g) = member_pred(&folds, k) {
                        c.hit("max_right by exact products");
                        (name, f) = (format!("one of the first {k} products"), g);
                    }
                }
                op!(c, 6, [l], "max_right({l}, {name})");
                let mut s = M::identity();
                let mut want = l;
                while want < n {
                    s = M::binary_operation(&s, &a[want]);
                    if !f(&s) { break }
                    want += 1;
                }
                let got = t.max_right(l, |x| f(x));
                check_eq!(c, got, want, "max_right({}, {}) of n={}", l, name, n);
                if want < n && want > l { c.hit("max_right stops inside"); }
            }
            _ => {
                let r = match c.rng.below(5) { 0 => 0, 1 => n, _ => c.rng.below(n + 1) };
                let (mut name, mut f) = preds(&mut c.rng, n);
                if n <= 256 && c.rng.chance(1, 2) {
                    let mut folds = vec![M::identity()];
                    for x in a[..r].iter().rev() { folds.push(M::binary_operation(x, folds.last().unwrap())) }
                    let k = c.rng.below(r + 1);
                    if let Some(g) = member_pred(&folds, k) {
                        c.hit("min_left by exact products");
                        (name, f) = (format!("one of the first {k} products"), g);
                    }
                }
                op!(c, 7, [r], "min_left({r}, {name})");
                let mut s = M::identity();
                let mut want = r;
                while want > 0 {
                    s = M::binary_operation(&a[want - 1], &s);
                    if !f(&s) { break }
                    want -= 1;
                }
                let got = t.min_left(r, |x| f(x));
                check_eq!(c, got, want, "min_left({}, {}) of n={}", r, name, n);
                if want > 0 && want < r { c.hit("min_left stops inside"); }
            }
        }
    }
    for p in 0..n.min(64) {
        check_eq!(c, t.get(p), a[p], "final get({})", p);
    }
    c.nontrivial = n > 1 && (sets > 0 || wide > 0);
    if n == 0 { c.hit("n=0"); }
}
fn free(c: &mut Case) {
    let mut id = 0u16;
    let salt = c.rng.below(60000) as u64;
    c.h(salt);
    history::<Free>(c, 60, 80, &mut |r| { id = id.wrapping_add(1); if r.chance(1, 12) { vec![] } else if r.chance(1, 8) { vec![id, id ^ 0x8000] } else { vec![id] } }, &mut |r, n| {
        if r.chance(1, 2) {
            let k = r.below(n + 3);
            (format!("len<={k}"), Box::new(move |x: &Vec<u16>| x.len() <= k))
        } else {
            let b = r.below(80) as u16;
            (format!("no {b}"), Box::new(move |x: &Vec<u16>| !x.contains(&b)))
        }
    });
}
fn seq(c: &mut Case) {
    history::<SeqM>(c, 3000, 60, &mut |r| if r.chance(1, 20) { SEQ_ID } else { let b = r.below(60); leaf(r.u64() >> (4 + b)) }, &mut |r, n| {
        let k = r.below(n + 3) as u64;
        (format!("len<={k}"), Box::new(move |x: &Seq| x.len <= k))
    });
}
fn aff(c: &mut Case) {
    history::<Aff>(c, 400, 60, &mut |r| (r.u64() % modp::P, r.u64() % modp::P), &mut |r, _| {
        // only trivially monotone predicates exist here
        if r.chance(1, 2) { ("true".into(), Box::new(|_: &(u64, u64)| true)) } else { ("is identity".into(), Box::new(|x: &(u64, u64)| *x == (1, 0))) }
    });
}
macro_rules! builtin {
    ($f:ident, $m:ty, $t:ty, $gen:expr, $name:expr, $pred:expr) => {
        fn $f(c: &mut Case) {
            history::<$m>(c, 500, 80, &mut $gen, &mut |r, n| {
                let k: $t = $pred(r, n);
                let s = stringify!($name);
                (format!("{s} {k}"), Box::new(move |x: &$t| $name(x, &k)))
            });
        }
    };
}
fn lt(x: &i64, k: &i64) -> bool { *x < *k || *x == i64::MIN }
fn gt(x: &u8, k: &u8) -> bool { *x > *k || *x == u8::MAX }
fn le(x: &i64, k: &i64) -> bool { *x <= *k }
fn ltu(x: &u64, k: &u64) -> bool { *x <= *k || *x == 1 }
builtin!(max64, Max<i64>, i64, |r| r.irange(-50, 50), lt, |r: &mut Rng, _| r.irange(-52, 52));
builtin!(min8, Min<u8>, u8, |r| r.below(256) as u8, gt, |r: &mut Rng, _| r.below(256) as u8);
builtin!(add64, Additive<i64>, i64, |r| if r.chance(1, 3) { 0 } else { r.irange(0, 1_000_000_000) }, le, |r: &mut Rng, n| r.irange(0, 500_000_000 * (n as i64 + 1)));
builtin!(mul64, Multiplicative<u64>, u64, |r| if r.chance(1, 30) { 2 } else { 1 }, ltu, |r: &mut Rng, _| 1 << r.below(3));
builtin!(max_i8, Max<i64>, i64, |r| if r.chance(1, 2) { i64::MAX } else { i64::MIN }, lt, |r: &mut Rng, _| r.irange(-1, 1));

/// every length, every range, every search threshold, distinct letters
fn all_small(c: &mut Case) {
    let n = c.idx as usize;
    let a: Vec<Vec<u16>> = (0..n).map(|i| vec![i as u16]).collect();
    op!(c, 1, [n], "n={n}, distinct letters, all ranges and thresholds");
    let mut t: Segtree<Free> = a.clone().into();
    if n % 2 == 1 {
        t = Segtree::new(n);
        for i in (0..n).rev() {
            t.set(i, a[i].clone());
        }
    }
    for l in 0..=n {
        for r in l..=n {
            let want: Vec<u16> = (l..r).map(|i| i as u16).collect();
            check_eq!(c, t.prod(l, r), want, "prod({},{}) n={}", l, r, n);
            let k = r - l;
            check_eq!(c, t.max_right(l, |x| x.len() <= k), (l + k).min(n), "max_right({}, len<={}) n={}", l, k, n);
            check_eq!(c, t.max_right(l, |x| !x.contains(&(r as u16))), r, "max_right({}, no {}) n={}", l, r, n);
            check_eq!(c, t.min_left(r, |x| x.len() <= k), l, "min_left({}, len<={}) n={}", r, k, n);
            check_eq!(c, t.min_left(r, |x| l == 0 || !x.contains(&(l as u16 - 1))), l, "min_left({}, no {}) n={}", r, l as i64 - 1, n);
        }
        check_eq!(c, t.max_right(l, |_| true), n, "max_right({}, true)", l);
        check_eq!(c, t.min_left(l, |_| true), 0, "min_left({}, true)", l);
    }
    check_eq!(c, t.all_prod(), (0..n as u16).collect::<Vec<_>>(), "all_prod n={}", n);
    c.nontrivial = n > 1;
}
fn large(c: &mut Case) {
    let n = if c.exact > 0 { c.exact } else if c.giant { gen::giant_n(c) } else { (1usize << c.rng.range(13, 17)) + c.rng.below(3) - 1 };
    op!(c, 1, [n], "n={n}");
    let mut a: Vec<Seq> = (0..n).map(|_| leaf(c.rng.u64())).collect();
    let mut t: Segtree<SeqM> = a.clone().into();
    for round in 0..3 {
        for _ in 0..500 {
            let p = c.rng.below(n);
            a[p] = leaf(c.rng.u64());
            t.set(p, a[p]);
        }
        for _ in 0..if c.giant { 8 } else { 40 } {
            let (l, r) = c.range(n);
            check_eq!(c, t.prod(l, r), fold::<SeqM>(&a[l..r]), "round {} prod({},{})", round, l, r);
            let k = c.rng.below(n + 1) as u64;
            check_eq!(c, t.max_right(l, |x| x.len <= k), (l + k as usize).min(n), "max_right({}, len<={})", l, k);
            check_eq!(c, t.min_left(r, |x| x.len <= k), r.saturating_sub(k as usize), "min_left({}, len<={})", r, k);
        }
    }
    // searches and short products from and to every remarkable position
    let mut more = vec![0, 1, 2, 3, 7, 8, n, n / 2, usize::MAX / 2];
    more.extend((0..3).map(|_| c.rng.below(n + 1)));
    for p in gen::spots(n) {
        for &k in &more {
            check_eq!(c, t.max_right(p, |x| x.len <= k as u64), (p + k).min(n), "max_right({}, len<={})", p, k);
            check_eq!(c, t.min_left(p, |x| x.len <= k as u64), p.saturating_sub(k), "min_left({}, len<={})", p, k);
        }
        let q = (p + c.rng.below(40)).min(n);
        check_eq!(c, t.prod(p, q), fold::<SeqM>(&a[p..q]), "prod({},{})", p, q);
    }
    c.max("largest n", n as u64);
    c.nontrivial = true;
}
/// the same around and above 2^20 elements
fn large_giant(c: &mut Case) {
    c.giant = true;
    large(c)
}
/// very many calls on one object
fn marathon(c: &mut Case) {
    c.giant = true;
    if c.idx % 2 == 0 { add64(c) } else { seq(c) }
}
/// searches by value between assignments, from and to every remarkable position
fn sums(c: &mut Case) {
    let n = if c.exact > 0 { c.exact } else if c.giant { gen::giant_n(c) } else { (1usize << c.rng.range(10, 17)) + c.rng.below(3) - 1 };
    op!(c, 9, [n], "sums, n={n}");
    let mut a: Vec<i64> = (0..n).map(|_| c.rng.irange(0, 100)).collect();
    c.h_slice(&a[..n.min(50)]);
    let mut t: Segtree<Additive<i64>> = a.clone().into();
    let mut at = gen::spots(n);
    c.rng.shuffle(&mut at);
    at.truncate(if c.giant { 40 } else { 400 });
    let mut s: Vec<i64> = vec![];
    for (i, &p) in at.iter().enumerate() {
        if i % if n > 5000 { 10 } else { 1 } == 0 {
            for _ in 0..c.rng.range(1, 6) {
                let i = c.rng.below(n);
                a[i] = c.rng.irange(0, 100);
                t.set(i, a[i]);
            }
            s = vec![0];
            for x in &a { s.push(s.last().unwrap() + x) }
        }
        let q = match c.rng.below(4) { 0 => 0, 1 => n, _ => c.rng.below(n + 1) };
        let k = (s[p] - s[q]).abs() + c.rng.irange(-1, 1).max(-(s[p] - s[q]).abs());
        check_eq!(c, t.max_right(p, |x| *x <= k), s.partition_point(|x| *x <= s[p] + k) - 1, "max_right({}, sum<={}) of n={}", p, k, n);
        check_eq!(c, t.min_left(p, |x| *x <= k), s.partition_point(|x| *x < s[p] - k), "min_left({}, sum<={}) of n={}", p, k, n);
        let (l, r) = (p.min(q), p.max(q));
        check_eq!(c, t.prod(l, r), s[r] - s[l], "prod({},{}) of n={}", l, r, n);
    }
    c.max("largest n", n as u64);
    c.nontrivial = n > 1;
}
fn sum_sizes(c: &mut Case) {
    c.exact = c.idx as usize + 1;
    sums(c)
}
fn sums_giant(c: &mut Case) {
    c.giant = true;
    sums(c)
}
/// one case for every size
fn sizes(c: &mut Case) {
    c.exact = c.idx as usize + 1;
    large(c)
}
fn main() {
    run(
        &[
            Workload { name: "all_small", quick: 70, thorough: 180, f: all_small },
            Workload { name: "free", quick: 125_000, thorough: 2_400_000, f: free },
            Workload { name: "seq", quick: 40_000, thorough: 800_000, f: seq },
            Workload { name: "affine", quick: 25_000, thorough: 400_000, f: aff },
            Workload { name: "max64", quick: 30_000, thorough: 400_000, f: max64 },
            Workload { name: "min8", quick: 20_000, thorough: 400_000, f: min8 },
            Workload { name: "add64", quick: 30_000, thorough: 400_000, f: add64 },
            Workload { name: "mul64", quick: 20_000, thorough: 400_000, f: mul64 },
            Workload { name: "max-extremes", quick: 10_000, thorough: 200_000, f: max_i8 },
            Workload { name: "large", quick: 18, thorough: 240, f: large },
            Workload { name: "sums", quick: 200, thorough: 3000, f: sums },
            Workload { name: "sums-giant", quick: 1, thorough: 12, f: sums_giant },
            Workload { name: "sums-sizes", quick: 1100, thorough: 6000, f: sum_sizes },
            Workload { name: "sizes", quick: 2200, thorough: 8800, f: sizes },
            Workload { name: "giant", quick: 2, thorough: 24, f: large_giant },
            Workload { name: "marathon", quick: 4, thorough: 60, f: marathon },
        ],
        &["n=0", "max_right stops inside", "min_left stops inside", "max_right by exact products", "min_left by exact products"],
    )
}
