//! C02 Fenwick tree vs. a plain array.
use rust_cp::data_structure::fenwick_tree::FenwickTree;
use std::cmp::Ordering;
use vmon::*;

/// element that also counts how many cells it sums (so predicates can be positional)
#[derive(Clone, Copy, Default, PartialEq, Debug)]
struct Tag {
    cnt: u32,
    val: i64,
    tag: u64,
}
impl std::ops::Add for Tag {
    type Output = Tag;
    fn add(self, o: Tag) -> Tag {
        Tag { cnt: self.cnt.wrapping_add(o.cnt), val: self.val.wrapping_add(o.val), tag: self.tag.wrapping_add(o.tag) }
    }
}
impl std::ops::Sub for Tag {
    type Output = Tag;
    fn sub(self, o: Tag) -> Tag {
        Tag { cnt: self.cnt.wrapping_sub(o.cnt), val: self.val.wrapping_sub(o.val), tag: self.tag.wrapping_sub(o.tag) }
    }
}
impl std::ops::AddAssign for Tag {
    fn add_assign(&mut self, o: Tag) {
        *self = *self + o
    }
}
struct Delta(i64);
impl Clone for Delta {
    fn clone(&self) -> Self {
        Delta(self.0)
    }
}
impl std::ops::AddAssign<Delta> for Tag {
    fn add_assign(&mut self, o: Delta) {
        self.val = self.val.wrapping_add(o.0)
    }
}
impl PartialOrd for Tag {
    fn partial_cmp(&self, o: &Tag) -> Option<Ordering> {
        self.val.partial_cmp(&o.val)
    }
}

fn tagged(c: &mut Case) {
    let n = if c.giant { c.rng.range(1, 200) } else { c.size(2000) };
    let build = c.rng.below(2);
    let mut a: Vec<Tag> = (0..n).map(|_| Tag { cnt: 1, val: c.rng.irange(-50, 50), tag: c.rng.u64() }).collect();
    let vals: Vec<i64> = a.iter().map(|t| t.val).collect();
    c.h_slice(&vals);
    op!(c, 1, [n, build], "{} {:?}", if build == 0 { "from" } else { "new+add" }, vals);
    let mut t = if build == 0 {
        FenwickTree::from(&a)
    } else {
        let mut t = FenwickTree::<Tag>::new(n);
        let p = c.rng.perm(n);
        for i in p {
            t.add(i, a[i]);
        }
        t
    };
    let q = if c.giant { c.rng.range(140_000, 200_000) } else { c.rng.range(1, 12 + n.min(60)) };
    let (mut adds, mut searches) = (0, 0);
    for _ in 0..q {
        match c.rng.below(6) {
            0 | 1 if n > 0 => {
                let i = c.rng.below(n);
                let d = c.rng.irange(-1000, 1000);
                adds += 1;
                a[i].val += d;
                if c.rng.chance(1, 2) {
                    op!(c, 2, [i, d], "add({i},{d})");
                    t.add(i, Tag { cnt: 0, val: d, tag: 0 });
                } else {
                    op!(c, 3, [i, d], "add::<Delta>({i},{d})");
                    t.add(i, Delta(d));
                }
            }
            2 => {
                let k = c.rng.below(n + 1);
                op!(c, 4, [k], "pref({k})");
                let want = a[..k].iter().fold(Tag::default(), |x, y| x + *y);
                check_eq!(c, t.pref(k), want, "pref({})", k);
            }
            3 => {
                let (l, r) = c.range(n);
                op!(c, 5, [l, r], "sum({l},{r})");
                let want = a[l..r].iter().fold(Tag::default(), |x, y| x + *y);
                check_eq!(c, t.sum(l, r), want, "sum({},{})", l, r);
            }
            _ => {
                // positional predicate: true for the first k prefix sums, whatever their values
                let k = c.rng.below(n + 2);
                searches += 1;
                op!(c, 6, [k], "partition_point(cnt <= {k})");
                let pre: Vec<Tag> = std::iter::once(Tag::default()).chain(a.iter().scan(Tag::default(), |s, y| { *s += *y; Some(*s) })).collect();
                let mut bad = None;
                let got = t.partition_point(|x| {
                    if x.cnt as usize > n || pre[x.cnt as usize] != *x {
                        bad = Some(*x)
                    }
                    x.cnt as usize <= k
                });
                check!(c, bad.is_none(), "partition_point: the predicate was shown {:?}, which is no prefix sum", bad);
                check_eq!(c, got, k.min(n), "partition_point(cnt <= {}) with n={}", k, n);
            }
        }
    }
    for k in 0..=n.min(200) {
        let want = a[..k].iter().fold(Tag::default(), |x, y| x + *y);
        check_eq!(c, t.pref(k), want, "final pref({})", k);
    }
    c.nontrivial = n > 1 && adds + searches > 0;
    if n == 0 { c.hit("n=0"); }
    if n.is_power_of_two() && n > 2 { c.hit("power-of-two n"); }
}
macro_rules! typed {
    ($f:ident, $t:ty, $lo:expr, $hi:expr, $sc:expr) => {
        /// non-negative data: search = first prefix sum reaching the target
        fn $f(c: &mut Case) {
            let n = c.size(1500);
            let zero_bias = c.rng.below(3);
            let gen = |r: &mut Rng| -> i64 { if zero_bias > 0 && r.chance(zero_bias, 3) { 0 } else { r.irange($lo, $hi) } };
            let mut a: Vec<i64> = (0..n).map(|_| gen(&mut c.rng)).collect();
            let from: Vec<$t> = a.iter().map(|&x| (x as $t) * $sc).collect();
            c.h_slice(&a);
            op!(c, 10, [n], "{} from {:?}", stringify!($t), a);
            let mut t: FenwickTree<$t> = FenwickTree::from(&from);
            if c.rng.chance(1, 3) {
                t = FenwickTree::new(n);
                for i in 0..n {
                    t.add(i, from[i]);
                }
            }
            for _ in 0..c.rng.range(1, 30) {
                if n > 0 && c.rng.chance(1, 3) {
                    let i = c.rng.below(n);
                    let d = gen(&mut c.rng);
                    a[i] += d;
                    op!(c, 11, [i, d], "add({i},{d})");
                    t.add(i, (d as $t) * $sc);
                }
                let total: i64 = a.iter().sum();
                let tgt = match c.rng.below(5) {
                    0 => 0,
                    1 => total,
                    2 => total + 1,
                    3 => a[..c.rng.below(n + 1)].iter().sum::<i64>(),
                    _ => c.rng.irange(0, total + 2),
                };
                if tgt > 127 && stringify!($t) == "i8" || tgt > 255 && stringify!($t) == "u8" { continue; }
                let mut s = 0;
                let want = a.iter().position(|x| { s += x; s >= tgt }).unwrap_or(n);
                op!(c, 12, [tgt], "search({tgt})");
                check_eq!(c, t.search(&((tgt as $t) * $sc)), want, "{} search({}) in {:?}", stringify!($t), tgt, a);
                check_eq!(c, t.partition_point(|x| *x <= (tgt as $t) * $sc), { let mut s = 0; a.iter().position(|x| { s += x; s > tgt }).unwrap_or(n) }, "partition_point(<= {})", tgt);
                let (l, r) = c.range(n);
                check_eq!(c, t.sum(l, r), (a[l..r].iter().sum::<i64>() as $t) * $sc, "sum({},{})", l, r);
                check_eq!(c, t.pref(r), (a[..r].iter().sum::<i64>() as $t) * $sc, "pref({})", r);
            }
            c.nontrivial = n > 1;
        }
    };
}
typed!(t_i64, i64, 0, 1_000_000, 1);
typed!(t_u32, u32, 0, 1_000, 1);
typed!(t_u64, u64, 0, 1_000, 1_000_003);
typed!(t_i128, i128, 0, 1_000_000, 1_000_000_000_000_007);
typed!(t_f64, f64, 0, 1_000_000, 0.5);
typed!(t_usize, usize, 0, 3, 1);
fn t_i8(c: &mut Case) {
    // small type: totals stay below the maximum
    let n = c.rng.below(9);
    let mut a: Vec<i8> = (0..n).map(|_| c.rng.irange(-14, 14) as i8).collect();
    op!(c, 1, [n], "i8 {:?}", a);
    let t0: Vec<i128> = a.iter().map(|&x| x as i128).collect();
    c.h_slice(&t0);
    let mut t = FenwickTree::from(&a);
    for _ in 0..6 {
        if n > 0 {
            let i = c.rng.below(n);
            let d = c.rng.irange(-14, 14) as i8 - a[i];
            a[i] += d;
            op!(c, 2, [i, d], "add({i},{d})");
            t.add(i, &d);
        }
        for l in 0..=n {
            for r in l..=n {
                check_eq!(c, t.sum(l, r), a[l..r].iter().sum::<i8>(), "i8 sum({},{})", l, r);
            }
        }
    }
    c.nontrivial = n > 1;
}
/// every length 0..=130: every prefix, every range, every search position
fn all_small(c: &mut Case) {
    let n = c.idx as usize;
    let a: Vec<i64> = (0..n).map(|_| c.rng.irange(1, 9)).collect();
    c.h_slice(&a);
    op!(c, 1, [n], "from {:?}", a);
    let t = FenwickTree::from(&a);
    let mut t2 = FenwickTree::<i64>::new(n);
    for i in (0..n).rev() {
        t2.add(i, a[i]);
    }
    let mut s = vec![0];
    for x in &a {
        s.push(s.last().unwrap() + x);
    }
    for l in 0..=n {
        check_eq!(c, t.pref(l), s[l], "pref({})", l);
        for r in l..=n {
            check_eq!(c, t.sum(l, r), s[r] - s[l], "sum({},{})", l, r);
            check_eq!(c, t2.sum(l, r), s[r] - s[l], "grown sum({},{})", l, r);
        }
        for d in -1..=1 {
            let g = s[l] + d;
            let want = s[1..].partition_point(|x| *x < g);
            check_eq!(c, t.search(&g), want, "search({})", g);
            check_eq!(c, t2.search(&g), want, "grown search({})", g);
            let want = s[1..].partition_point(|x| *x <= g);
            check_eq!(c, t.partition_point(|x| *x <= g), want, "partition_point(<= {})", g);
        }
    }
    c.nontrivial = n > 1;
}
fn large(c: &mut Case) {
    let n = if c.exact > 0 { c.exact } else if c.giant { gen::giant_n(c) } else { (1usize << c.rng.range(14, 18)) + c.rng.below(3) - 1 };
    // often with long runs of zeros, where many prefixes tie
    let gap = *c.rng.pick(&[1usize, 2, 100]);
    let mut a: Vec<i64> = (0..n).map(|_| if c.rng.chance(1, gap) { c.rng.irange(0, 1000) } else { 0 }).collect();
    op!(c, 1, [n], "n={n}");
    let mut t = FenwickTree::from(&a);
    for round in 0..if c.exact > 0 { 1 } else if c.giant { 2 } else { 4 } {
        for _ in 0..2000 {
            let i = c.rng.below(n);
            let d = c.rng.irange(0, 1000);
            a[i] += d;
            t.add(i, d);
        }
        let mut s = vec![0];
        for x in &a {
            s.push(s.last().unwrap() + x);
        }
        for k in 0..=n {
            check_eq!(c, t.pref(k), s[k], "round {} pref({})", round, k);
        }
        for _ in 0..3000 {
            let g = c.rng.irange(-1, s[n] + 1);
            check_eq!(c, t.search(&g), s[1..].partition_point(|x| *x < g), "search({})", g);
            check_eq!(c, t.partition_point(|x| *x <= g), s[1..].partition_point(|x| *x <= g), "partition_point(<={})", g);
        }
        let at = gen::spots(n);
        for &l in &at {
            for &r in &at { if l <= r { check_eq!(c, t.sum(l, r), s[r] - s[l], "sum({},{})", l, r) } }
            for g in [s[l] - 1, s[l], s[l] + 1] { check_eq!(c, t.search(&g), s[1..].partition_point(|x| *x < g), "search({})", g) }
        }
    }
    c.max("largest n", n as u64);
    c.nontrivial = true;
}
/// the same around and above 2^20 elements
fn large_giant(c: &mut Case) {
    c.giant = true;
    large(c)
}
/// very many calls on one object
fn marathon(c: &mut Case) {
    c.giant = true;
    tagged(c)
}
/// one case for every size
fn sizes(c: &mut Case) {
    c.exact = c.idx as usize + 1;
    large(c)
}
fn main() {
    run(
        &[
            Workload { name: "all_small", quick: 131, thorough: 301, f: all_small },
            Workload { name: "tagged", quick: 200_000, thorough: 3_600_000, f: tagged },
            Workload { name: "i64", quick: 30_000, thorough: 600_000, f: t_i64 },
            Workload { name: "u32", quick: 15_000, thorough: 240_000, f: t_u32 },
            Workload { name: "u64", quick: 15_000, thorough: 240_000, f: t_u64 },
            Workload { name: "i128", quick: 15_000, thorough: 240_000, f: t_i128 },
            Workload { name: "f64", quick: 15_000, thorough: 240_000, f: t_f64 },
            Workload { name: "usize", quick: 15_000, thorough: 240_000, f: t_usize },
            Workload { name: "i8", quick: 25_000, thorough: 240_000, f: t_i8 },
            Workload { name: "large", quick: 18, thorough: 180, f: large },
            Workload { name: "sizes", quick: 2200, thorough: 8800, f: sizes },
            Workload { name: "giant", quick: 2, thorough: 24, f: large_giant },
            Workload { name: "marathon", quick: 4, thorough: 60, f: marathon },
        ],
        &["n=0", "power-of-two n"],
    )
}
