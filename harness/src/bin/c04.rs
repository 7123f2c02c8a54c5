//! C04 lazy segment tree vs. a plain array updated element by element.
use rust_cp::data_structure::lazy_segtree::LazySegtree;
use rust_cp::misc::monoids::Additive;
use rust_cp::traits::monoid::{MapMonoid, Monoid};
use std::fmt::Debug;
use vmon::models::*;
use vmon::*;

type S<A> = <<A as MapMonoid>::M as Monoid>::S;
type Pred<A> = (String, Box<dyn Fn(&S<A>) -> bool>);
fn fold<A: MapMonoid>(a: &[S<A>]) -> S<A> {
    a.iter().fold(A::identity_element(), |x, y| A::binary_operation(&x, y))
}
struct Sys<A: MapMonoid> {
    t: LazySegtree<A>,
    a: Vec<S<A>>,
    applied: u64,
    wide: u64,
}
impl<A: MapMonoid> Sys<A>
where
    S<A>: PartialEq + Debug + 'static,
    A::F: Debug,
{
    fn construct(c: &mut Case, n: usize, gen: &mut dyn FnMut(&mut Rng) -> S<A>) -> Self {
        let ctor = c.rng.below(4);
        let (a, t): (Vec<S<A>>, LazySegtree<A>) = match ctor {
            0 => ((0..n).map(|_| A::identity_element()).collect(), LazySegtree::new(n)),
            1 if n == 0 => (vec![], LazySegtree::default()),
            _ => {
                let a: Vec<_> = (0..n).map(|_| gen(&mut c.rng)).collect();
                let t = a.clone().into();
                (a, t)
            }
        };
        op!(c, 1, [n, ctor], "construct n={n} {:?}", a);
        Sys { t, a, applied: 0, wide: 0 }
    }
    fn step(&mut self, c: &mut Case, gen: &mut dyn FnMut(&mut Rng) -> S<A>, gmap: &mut dyn FnMut(&mut Rng) -> A::F, preds: &mut dyn FnMut(&mut Rng, usize) -> Pred<A>) {
        let n = self.a.len();
        match c.rng.below(16) {
            0 | 1 if n > 0 => {
                let p = c.rng.below(n);
                let x = gen(&mut c.rng);
                op!(c, 2, [p], "set({p},{:?})", x);
                self.a[p] = x.clone();
                self.t.set(p, x);
            }
            2 if n > 0 => {
                let p = c.rng.below(n);
                op!(c, 3, [p], "get({p})");
                check_eq!(c, self.t.get(p), self.a[p], "get({})", p);
            }
            3 if n > 0 => {
                let p = c.rng.below(n);
                let f = gmap(&mut c.rng);
                op!(c, 4, [p], "apply({p},{:?})", f);
                self.a[p] = A::mapping(&f, &self.a[p]);
                self.t.apply(p, f);
                self.applied += 1;
            }
            4..=8 => {
                let (l, r) = c.range(n);
                let f = gmap(&mut c.rng);
                op!(c, 5, [l, r], "apply_range({l},{r},{:?})", f);
                for x in &mut self.a[l..r] {
                    *x = A::mapping(&f, x);
                }
                self.t.apply_range(l, r, f);
                self.applied += (r - l > 1) as u64;
            }
            9 | 10 | 11 => {
                let (l, r) = c.range(n);
                op!(c, 6, [l, r], "prod({l},{r})");
                self.wide += (r - l > 1) as u64;
                check_eq!(c, self.t.prod(l, r), fold::<A>(&self.a[l..r]), "prod({},{}) of n={}", l, r, n);
            }
            12 => {
                if n <= 40 && c.rng.chance(1, 3) {
                    op!(c, 10, [], "format for debugging");
                    let text = format!("{:?}", self.t);
                    check!(c, n == 0 || !text.is_empty(), "nothing shown of {} elements", n);
                    c.hit("formatted");
                    if c.rng.chance(1, 2) {
                        // with nothing pending, the last line starts with the elements
                        for p in 0..n { let x = self.t.get(p); check_eq!(c, x, self.a[p], "get({})", p); }
                        let text = format!("{:?}", self.t);
                        let want: String = self.a.iter().map(|x| format!("{x:?}\t")).collect();
                        let last = text.rsplit('\n').next().unwrap();
                        check!(c, last.starts_with(&want), "the last line shown is {:?}, the elements are {:?}", last, self.a);
                        c.hit("elements shown");
                    }
                }
                op!(c, 7, [], "all_prod");
                check_eq!(c, self.t.all_prod(), fold::<A>(&self.a), "all_prod of n={}", n);
            }
            13 | 14 => {
                let l = match c.rng.below(5) { 0 => 0, 1 => n, _ => c.rng.below(n + 1) };
                let (mut name, mut f) = preds(&mut c.rng, n);
                if n <= 256 && c.rng.chance(1, 2) {
                    let mut folds = vec![A::identity_element()];
                    for x in &self.a[l..] { folds.push(A::binary_operation(folds.last().unwrap(), x)) }
                    let k = c.rng.below(n - l + 1);
                    if let Some(g) = member_pred(&folds, k) {
                        c.hit("max_right by exact products");
                        (name, f) = (format!("one of the first {k} products"), g);
                    }
                }
                op!(c, 8, [l], "max_right({l}, {name})");
                let mut s = A::identity_element();
                let mut want = l;
                while want < n {
                    s = A::binary_operation(&s, &self.a[want]);
                    if !f(&s) { break }
                    want += 1;
                }
                let got = self.t.max_right(l, |x| f(&x));
                check_eq!(c, got, want, "max_right({}, {}) of n={}", l, name, n);
                if want < n && want > l { c.hit("max_right stops inside"); }
            }
            _ => {
                let r = match c.rng.below(5) { 0 => 0, 1 => n, _ => c.rng.below(n + 1) };
                let (mut name, mut f) = preds(&mut c.rng, n);
                if n <= 256 && c.rng.chance(1, 2) {
                    let mut folds = vec![A::identity_element()];
                    for x in self.a[..r].iter().rev() { folds.push(A::binary_operation(x, folds.last().unwrap())) }
                    let k = c.rng.below(r + 1);
                    if let Some(g) = member_pred(&folds, k) {
                        c.hit("min_left by exact products");
                        (name, f) = (format!("one of the first {k} products"), g);
                    }
                }
                op!(c, 9, [r], "min_left({r}, {name})");
                let mut s = A::identity_element();
                let mut want = r;
                while want > 0 {
                    s = A::binary_operation(&self.a[want - 1], &s);
                    if !f(&s) { break }
                    want -= 1;
                }
                let got = self.t.min_left(r, |x| f(&x));
                check_eq!(c, got, want, "min_left({}, {}) of n={}", r, name, n);
                if want > 0 && want < r { c.hit("min_left stops inside"); }
            }
        }
    }
    fn finish(&mut self, c: &mut Case, all: usize) {
        let n = self.a.len();
        for p in 0..n.min(all) {
            check_eq!(c, self.t.get(p), self.a[p], "final get({})", p);
        }
        check_eq!(c, self.t.all_prod(), fold::<A>(&self.a), "final all_prod of n={}", n);
        c.nontrivial = n > 1 && self.applied > 0;
        if n == 0 { c.hit("n=0"); }
    }
}
fn history<A: MapMonoid>(c: &mut Case, maxn: usize, maxops: usize, gen: &mut dyn FnMut(&mut Rng) -> S<A>, gmap: &mut dyn FnMut(&mut Rng) -> A::F, preds: &mut dyn FnMut(&mut Rng, usize) -> Pred<A>)
where
    S<A>: PartialEq + Debug + 'static,
    A::F: Debug,
{
    let n = if c.giant { c.rng.range(1, 100) } else { c.size(maxn) };
    let mut s = Sys::<A>::construct(c, n, gen);
    let nops = if c.giant { c.rng.range(140_000, 200_000) } else { c.rng.range(2, maxops.min(12 + 2 * n)) };
    for _ in 0..nops {
        s.step(c, gen, gmap, preds);
    }
    s.finish(c, 64);
}
fn free(c: &mut Case) {
    let (mut id, mut m) = (0u16, 0u16);
    let salt = c.rng.below(60000) as u64;
    c.h(salt);
    history::<FreeAct>(
        c, 24, 30,
        &mut |r| { id += 1; if r.chance(1, 10) { vec![] } else if r.chance(1, 8) { vec![(id, vec![]), (id ^ 0x8000, vec![])] } else { vec![(id, vec![])] } },
        &mut |r| { m += 1; if r.chance(1, 12) { vec![] } else { vec![m] } },
        &mut |r, n| {
            if r.chance(1, 2) {
                let k = r.below(n + 3);
                (format!("len<={k}"), Box::new(move |x: &Vec<Cell>| x.len() <= k))
            } else {
                let b = r.below(30) as u16;
                (format!("no cell touched by map {b}"), Box::new(move |x: &Vec<Cell>| !x.iter().any(|(_, l)| l.contains(&b))))
            }
        },
    );
}
fn seq(c: &mut Case) {
    history::<SeqAff>(
        c, 1500, 60,
        &mut |r| if r.chance(1, 20) { SEQ_ID } else { let b = r.below(60); leaf(r.u64() >> (4 + b)) },
        &mut |r| match r.below(6) { 0 => (0, r.u64() % 1000), 1 => (1, r.u64() % 1000), 2 => (1, 0), 3 => (2, 0), _ => (r.u64() % modp::P, r.u64() % modp::P) },
        &mut |r, n| {
            let k = r.below(n + 3) as u64;
            (format!("len<={k}"), Box::new(move |x: &Seq| x.len <= k))
        },
    );
}
fn max_add(c: &mut Case) {
    history::<MaxAdd>(
        c, 500, 80, &mut |r| if r.chance(1, 10) { i64::MIN } else { r.irange(-50, 50) },
        &mut |r| if r.chance(1, 10) { 0 } else { r.irange(-60, 60) },
        &mut |r, _| { let k = r.irange(-90, 90); (format!("<{k}"), Box::new(move |x: &i64| *x < k || *x == i64::MIN)) },
    );
}
fn min_assign(c: &mut Case) {
    history::<MinAssign>(
        c, 500, 80, &mut |r| r.irange(-50, 50),
        &mut |r| match r.below(4) { 0 => (None, 0), 1 => (Some(r.irange(-40, 40)), 0), 2 => (None, r.irange(-20, 20)), _ => (Some(r.irange(-9, 9)), r.irange(-9, 9)) },
        &mut |r, _| { let k = r.irange(-60, 60); (format!(">{k}"), Box::new(move |x: &i64| *x > k || *x == i64::MAX)) },
    );
}
/// maps that move the identity: what an implementation does to padding must never show
fn clamping(c: &mut Case) {
    history::<Clamp>(
        c, 500, 80, &mut |r| if r.chance(1, 12) { i64::MAX } else { r.irange(-50, 50) }, &mut |r| clamp(r),
        &mut |r, _| { let k = r.irange(-60, 60); (format!(">{k}"), Box::new(move |x: &i64| *x > k)) },
    );
}
/// sum with add: (sum, length) pairs as the doc of such libraries suggests
pub struct SumLen;
impl Monoid for SumLen {
    type S = (i64, i64);
    fn identity() -> (i64, i64) { (0, 0) }
    fn binary_operation(a: &(i64, i64), b: &(i64, i64)) -> (i64, i64) { (a.0 + b.0, a.1 + b.1) }
}
pub struct RangeAdd;
impl MapMonoid for RangeAdd {
    type M = SumLen;
    type F = i64;
    fn identity_map() -> i64 { 0 }
    fn mapping(f: &i64, x: &(i64, i64)) -> (i64, i64) { (x.0 + f * x.1, x.1) }
    fn composition(f: &i64, g: &i64) -> i64 { f + g }
}
fn range_add(c: &mut Case) {
    history::<RangeAdd>(
        c, 500, 80, &mut |r| (r.irange(0, 1000), 1), &mut |r| r.irange(0, 1000),
        &mut |r, n| { let k = r.irange(0, 1500 * n as i64 + 10); (format!("sum<={k}"), Box::new(move |x: &(i64, i64)| x.0 <= k)) },
    );
}
/// no action: the identity map only (the tree degenerates to a plain segment tree)
pub struct NoAct;
impl MapMonoid for NoAct {
    type M = Additive<i64>;
    type F = ();
    fn identity_map() {}
    fn mapping(_: &(), x: &i64) -> i64 { *x }
    fn composition(_: &(), _: &()) {}
}
fn no_act(c: &mut Case) {
    history::<NoAct>(
        c, 200, 40, &mut |r| r.irange(0, 1000), &mut |_| (),
        &mut |r, n| { let k = r.irange(0, 600 * n as i64 + 10); (format!("sum<={k}"), Box::new(move |x: &i64| *x <= k)) },
    );
}
/// every length, every pair of consecutive range updates, then every range and point
fn all_pairs(c: &mut Case) {
    // lengths 1..=9; case index enumerates (n, l1, r1)
    let mut k = c.idx as usize;
    let mut n = 1;
    loop {
        let cnt = (n + 1) * (n + 2) / 2;
        if k < cnt { break }
        k -= cnt;
        n += 1;
    }
    let mut l1 = 0;
    while k > n - l1 {
        k -= n - l1 + 1;
        l1 += 1;
    }
    let r1 = l1 + k;
    op!(c, 1, [n, l1, r1], "n={n}: apply_range({l1},{r1},1), then every apply_range(l2,r2,2), then everything");
    let base: Vec<Vec<Cell>> = (0..n).map(|i| vec![(i as u16, vec![])]).collect();
    for l2 in 0..=n {
        for r2 in l2..=n {
            for mode in 0..2 {
                let mut t: LazySegtree<FreeAct> = base.clone().into();
                let mut a = base.clone();
                t.apply_range(l1, r1, vec![1]);
                for x in &mut a[l1..r1] { x[0].1.push(1) }
                t.apply_range(l2, r2, vec![2]);
                for x in &mut a[l2..r2] { x[0].1.push(2) }
                let flat = |l: usize, r: usize| -> Vec<Cell> { a[l..r].concat() };
                check_eq!(c, t.all_prod(), flat(0, n), "all_prod after [{},{}) [{},{})", l1, r1, l2, r2);
                if mode == 0 {
                    // reads in an arbitrary order
                    for p in c.rng.perm(n) { check_eq!(c, t.get(p), a[p], "get({}) after [{},{}) [{},{})", p, l1, r1, l2, r2) }
                } else {
                    let (l, r) = c.range(n);
                    let th = c.rng.below(n + 1);
                    match c.rng.below(3) {
                        0 => { check_eq!(c, t.max_right(l, |x| x.len() <= th), (l + th).min(n), "max_right({},{}) after [{},{}) [{},{})", l, th, l1, r1, l2, r2); }
                        1 => { check_eq!(c, t.min_left(r, |x| x.len() <= th), r.saturating_sub(th), "min_left({},{}) after [{},{}) [{},{})", r, th, l1, r1, l2, r2); }
                        _ => {}
                    }
                    check_eq!(c, t.prod(l, r), flat(l, r), "prod({},{}) after [{},{}) [{},{})", l, r, l1, r1, l2, r2);
                    check_eq!(c, t.prod(0, n), flat(0, n), "prod(0,{}) after [{},{}) [{},{})", n, l1, r1, l2, r2);
                }
            }
        }
    }
    c.nontrivial = n > 1;
}
fn large(c: &mut Case) {
    let n = if c.exact > 0 { c.exact } else if c.giant { gen::giant_n(c) } else { (1usize << c.rng.range(12, 16)) + c.rng.below(3) - 1 };
    let mut gen = |r: &mut Rng| leaf(r.u64());
    let mut gmap = |r: &mut Rng| if r.chance(1, 4) { (0, r.u64() % modp::P) } else { (r.u64() % modp::P, r.u64() % modp::P) };
    let mut preds = |r: &mut Rng, n: usize| -> Pred<SeqAff> { let k = r.below(n + 1) as u64; (format!("len<={k}"), Box::new(move |x: &Seq| x.len <= k)) };
    let mut s = Sys::<SeqAff>::construct(c, n, &mut gen);
    for _ in 0..if c.giant { 40 } else { 200 } { s.step(c, &mut gen, &mut gmap, &mut preds) }
    s.finish(c, n);
    // searches, short products and maps from and to every remarkable position
    let mut below = vec![0];
    for x in &s.a { below.push(below.last().unwrap() + x.len) }
    let mut more = vec![0, 1, 2, 3, 7, 8, n as u64, n as u64 / 2, u64::MAX / 2];
    more.extend((0..3).map(|_| c.rng.below(n + 1) as u64));
    for p in gen::spots(n) {
        for &k in &more {
            check_eq!(c, s.t.max_right(p, |x| x.len <= k), below.partition_point(|b| *b <= below[p].saturating_add(k)) - 1, "max_right({}, len<={})", p, k);
            check_eq!(c, s.t.min_left(p, |x| x.len <= k), below[..=p].partition_point(|b| b.saturating_add(k) < below[p]), "min_left({}, len<={})", p, k);
        }
        let q = (p + c.rng.below(40)).min(n);
        let f = gmap(&mut c.rng);
        s.t.apply_range(p, q, f);
        for x in &mut s.a[p..q] { *x = SeqAff::mapping(&f, x) }
        check_eq!(c, s.t.prod(p, q), fold::<SeqAff>(&s.a[p..q]), "prod({},{})", p, q);
        if p < n {
            let f = gmap(&mut c.rng);
            s.t.apply(p, f);
            s.a[p] = SeqAff::mapping(&f, &s.a[p]);
            check_eq!(c, s.t.get(p), s.a[p], "get({})", p);
        }
    }
    s.finish(c, n);
    c.max("largest n", n as u64);
}
/// the same around and above 2^20 elements
fn large_giant(c: &mut Case) {
    c.giant = true;
    large(c)
}
/// very many calls on one object
fn marathon(c: &mut Case) {
    c.giant = true;
    if c.idx % 2 == 0 { seq(c) } else { min_assign(c) }
}
/// searches whose predicate depends on what the pending maps did, from and to every remarkable position
fn sums(c: &mut Case) {
    let n = if c.exact > 0 { c.exact } else if c.giant { gen::giant_n(c) } else { (1usize << c.rng.range(10, 17)) + c.rng.below(3) - 1 };
    op!(c, 9, [n], "sums, n={n}");
    let mut a: Vec<(i64, i64)> = (0..n).map(|_| (c.rng.irange(0, 100), 1)).collect();
    c.h_slice(&a.iter().take(50).map(|x| x.0).collect::<Vec<_>>());
    let mut t: LazySegtree<RangeAdd> = LazySegtree::from(a.clone());
    let mut at = gen::spots(n);
    c.rng.shuffle(&mut at);
    at.truncate(if c.giant { 40 } else { 400 });
    let mut s: Vec<i64> = vec![];
    for (i, &p) in at.iter().enumerate() {
        if i % if n > 5000 { 10 } else { 1 } == 0 {
            for _ in 0..c.rng.range(1, 4) {
                let (l, r) = c.range(n);
                let d = c.rng.irange(0, 100);
                t.apply_range(l, r, d);
                for x in &mut a[l..r] { x.0 += d }
            }
            s = vec![0];
            for x in &a { s.push(s.last().unwrap() + x.0) }
        }
        let q = match c.rng.below(4) { 0 => 0, 1 => n, _ => c.rng.below(n + 1) };
        let k = (s[p] - s[q]).abs() + c.rng.irange(-1, 1).max(-(s[p] - s[q]).abs());
        let right = s.partition_point(|x| *x <= s[p] + k) - 1;
        let left = s.partition_point(|x| *x < s[p] - k);
        if c.rng.chance(1, 2) {
            check_eq!(c, t.max_right(p, |x| x.0 <= k), right, "max_right({}, sum<={}) of n={}", p, k, n);
            check_eq!(c, t.min_left(p, |x| x.0 <= k), left, "min_left({}, sum<={}) of n={}", p, k, n);
        } else {
            check_eq!(c, t.min_left(p, |x| x.0 <= k), left, "min_left({}, sum<={}) of n={}", p, k, n);
            check_eq!(c, t.max_right(p, |x| x.0 <= k), right, "max_right({}, sum<={}) of n={}", p, k, n);
        }
        let (l, r) = (p.min(q), p.max(q));
        check_eq!(c, t.prod(l, r).0, s[r] - s[l], "prod({},{}) of n={}", l, r, n);
    }
    c.max("largest n", n as u64);
    c.nontrivial = n > 1;
}
fn sums_giant(c: &mut Case) {
    c.giant = true;
    sums(c)
}
/// one case for every size
fn sizes(c: &mut Case) {
    c.exact = c.idx as usize + 1;
    large(c)
}
fn sum_sizes(c: &mut Case) {
    c.exact = c.idx as usize + 1;
    sums(c)
}
fn main() {
    run(
        &[
            Workload { name: "all_pairs", quick: 219, thorough: 900, f: all_pairs },
            Workload { name: "free", quick: 200_000, thorough: 3_200_000, f: free },
            Workload { name: "seq-affine", quick: 50_000, thorough: 1_000_000, f: seq },
            Workload { name: "max-add", quick: 40_000, thorough: 600_000, f: max_add },
            Workload { name: "min-assign", quick: 40_000, thorough: 600_000, f: min_assign },
            Workload { name: "min-clamp", quick: 40_000, thorough: 600_000, f: clamping },
            Workload { name: "range-add-sum", quick: 30_000, thorough: 400_000, f: range_add },
            Workload { name: "no-action", quick: 10_000, thorough: 120_000, f: no_act },
            Workload { name: "large", quick: 18, thorough: 240, f: large },
            Workload { name: "sums", quick: 200, thorough: 3000, f: sums },
            Workload { name: "sums-giant", quick: 1, thorough: 12, f: sums_giant },
            Workload { name: "sums-sizes", quick: 1100, thorough: 6000, f: sum_sizes },
            Workload { name: "sizes", quick: 1100, thorough: 4400, f: sizes },
            Workload { name: "giant", quick: 2, thorough: 24, f: large_giant },
            Workload { name: "marathon", quick: 4, thorough: 60, f: marathon },
        ],
        &["formatted", "elements shown", "n=0", "max_right stops inside", "min_left stops inside", "max_right by exact products", "min_left by exact products"],
    )
}
