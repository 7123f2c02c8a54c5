//! C05 sparse table vs. the fold of the range, over idempotent (also non-commutative) operations.
use rust_cp::data_structure::sparse_table::SparseTable;
use rust_cp::math::number_theory::gcd;
use std::fmt::Debug;
use vmon::*;

fn drive<T: Copy + PartialEq + Debug>(c: &mut Case, a: &[T], filler: T, op: fn(T, T) -> T, all: bool) {
    let n = a.len();
    let t = SparseTable::from(a, filler, op);
    if n == 0 {
        c.hit("n=0");
        return;
    }
    if all {
        for l in 0..n {
            let mut s = a[l];
            for r in l + 1..=n {
                if r > l + 1 { s = op(s, a[r - 1]) }
                check_eq!(c, t.get(l, r), s, "get({},{}) of n={}", l, r, n);
            }
        }
    } else {
        for _ in 0..60 {
            let (mut l, mut r) = c.range(n);
            if l == r { if l == n { l -= 1 } else { r += 1 } }
            op!(c, 2, [l, r], "get({l},{r})");
            let s = a[l + 1..r].iter().fold(a[l], |x, y| op(x, *y));
            check_eq!(c, t.get(l, r), s, "get({},{}) of n={}", l, r, n);
        }
    }
    c.nontrivial = n > 1;
}
/// Union of positions as (first, last, bit set); joining anything that is not ordered and
/// adjacent-or-overlapping poisons the value. Idempotent and associative on the ranges the table
/// may legitimately join; exposes gaps, wrong ends and use of the filler.
#[derive(Clone, Copy, PartialEq, Debug)]
struct Iv(u32, u32, bool);
fn iv(a: Iv, b: Iv) -> Iv {
    Iv(a.0.min(b.0), b.1.max(a.1), a.2 && b.2 && a.0 <= b.0 && a.1 <= b.1 && b.0 <= a.1)
}
fn interval(c: &mut Case) {
    let n = c.idx as usize;
    op!(c, 1, [n], "intervals, n={n}, every range");
    let a: Vec<Iv> = (0..n as u32).map(|i| Iv(i, i + 1, true)).collect();
    drive(c, &a, Iv(0, 0, false), iv, true);
}
fn interval_big(c: &mut Case) {
    let k = c.rng.range(9, 17);
    let n = if c.exact > 0 { c.exact } else if c.giant { gen::giant_n(c) } else { (1usize << k) + c.rng.below(3) - 1 };
    op!(c, 1, [n], "intervals, n={n}");
    let a: Vec<Iv> = (0..n as u32).map(|i| Iv(i, i + 1, true)).collect();
    drive(c, &a, Iv(0, 0, false), iv, false);
    let t = SparseTable::from(&a, Iv(0, 0, false), iv);
    let at = gen::spots(n);
    for &l in &at {
        for &r in &at { if l < r { check_eq!(c, t.get(l, r), Iv(l as u32, r as u32, true), "get({},{}) of n={}", l, r, n) } }
    }
    c.max("largest n", n as u64);
}
/// free band on letters: keep the order of first occurrences (left-regular band: non-commutative,
/// associative, idempotent), letters 0..16 packed as nibbles
type Band = (u64, u32);
fn band(a: Band, b: Band) -> Band {
    let mut r = a;
    for i in 0..b.1 {
        let d = (b.0 >> (4 * i)) & 15;
        if (0..r.1).all(|j| (r.0 >> (4 * j)) & 15 != d) {
            r.0 |= d << (4 * r.1);
            r.1 += 1;
        }
    }
    r
}
fn bands(c: &mut Case) {
    let n = c.size(300);
    let k = c.rng.range(1, 16) as u64;
    let a: Vec<Band> = (0..n).map(|_| (c.rng.u64() % k, 1)).collect();
    op!(c, 1, [n, k], "order of first occurrences {:?}", a.iter().map(|x| x.0).collect::<Vec<_>>());
    for x in &a { c.h(x.0) }
    let f = (c.rng.u64() % 16, 1);
    let all = n <= 40;
    drive(c, &a, f, band, all);
}
fn right_band(a: Band, b: Band) -> Band { band(b, a) }
fn bands_r(c: &mut Case) {
    let n = c.size(300);
    let a: Vec<Band> = (0..n).map(|_| (c.rng.u64() % 16, 1)).collect();
    op!(c, 1, [n], "order of last occurrences {:?}", a.iter().map(|x| x.0).collect::<Vec<_>>());
    for x in &a { c.h(x.0) }
    drive(c, &a, (7, 1), right_band, n <= 40);
}
macro_rules! num {
    ($name:ident, $t:ty, $op:expr, $filler:expr, $gen:expr) => {
        fn $name(c: &mut Case) {
            let n = c.size(400);
            let a: Vec<$t> = (0..n).map(|_| $gen(&mut c.rng)).collect();
            op!(c, 1, [n], "{} {:?}", stringify!($name), a);
            for x in &a { c.h(*x as u64) }
            let f: $t = $filler(&mut c.rng);
            drive(c, &a, f, $op, n <= 60);
        }
    };
}
num!(min_i32, i32, |a, b| a.min(b), |r: &mut Rng| if r.chance(1, 2) { i32::MIN } else { r.u64() as i32 }, |r: &mut Rng| r.irange(-100, 100) as i32);
num!(max_u64, u64, |a, b| a.max(b), |r: &mut Rng| if r.chance(1, 2) { u64::MAX } else { 0 }, |r: &mut Rng| r.bits(64) as u64);
num!(max_i8, i8, |a, b| a.max(b), |_: &mut Rng| i8::MAX, |r: &mut Rng| r.u64() as i8);
num!(gcd_u32, u32, |a, b| gcd(a, b), |r: &mut Rng| r.below(3) as u32, |r: &mut Rng| 12 * r.below(400) as u32);
num!(and_u128, u128, |a, b| a & b, |r: &mut Rng| r.u128(), |r: &mut Rng| r.u128() | r.u128() | r.u128());
num!(or_usize, usize, |a, b| a | b, |r: &mut Rng| r.u64() as usize, |r: &mut Rng| 1usize << r.below(64));
num!(left_zero, u32, |a, _| a, |_: &mut Rng| 77, |r: &mut Rng| r.u64() as u32);
num!(right_zero, u32, |_, b| b, |_: &mut Rng| 77, |r: &mut Rng| r.u64() as u32);
/// (min value, its leftmost index) through references into the data
fn by_ref(c: &mut Case) {
    let n = c.size1(200);
    let a: Vec<(i64, usize)> = (0..n).map(|i| (c.rng.irange(-4, 4), i)).collect();
    op!(c, 1, [n], "leftmost minimum {:?}", a);
    for x in &a { c.h(x.0 as u64) }
    let idx: Vec<usize> = (0..n).collect();
    let t = SparseTable::from(&idx, usize::MAX, |x, y| if a[y] < a[x] { y } else { x });
    for l in 0..n {
        for r in l + 1..=n {
            let w = (l..r).min_by_key(|&i| a[i]).unwrap();
            check_eq!(c, t.get(l, r), w, "argmin({},{})", l, r);
        }
    }
    c.nontrivial = n > 1;
}
/// the same around and above 2^20 elements
fn interval_big_giant(c: &mut Case) {
    c.giant = true;
    interval_big(c)
}
/// one case for every size
fn sizes(c: &mut Case) {
    c.exact = c.idx as usize + 1;
    interval_big(c)
}
fn main() {
    run(
        &[
            Workload { name: "interval", quick: 150, thorough: 420, f: interval },
            Workload { name: "interval_big", quick: 72, thorough: 900, f: interval_big },
            Workload { name: "sizes", quick: 2200, thorough: 8800, f: sizes },
            Workload { name: "giant", quick: 2, thorough: 24, f: interval_big_giant },
            Workload { name: "first_occurrences", quick: 30_000, thorough: 600_000, f: bands },
            Workload { name: "last_occurrences", quick: 20_000, thorough: 400_000, f: bands_r },
            Workload { name: "min_i32", quick: 25_000, thorough: 400_000, f: min_i32 },
            Workload { name: "max_u64", quick: 25_000, thorough: 400_000, f: max_u64 },
            Workload { name: "max_i8", quick: 15_000, thorough: 240_000, f: max_i8 },
            Workload { name: "gcd", quick: 20_000, thorough: 320_000, f: gcd_u32 },
            Workload { name: "and", quick: 20_000, thorough: 320_000, f: and_u128 },
            Workload { name: "or", quick: 20_000, thorough: 320_000, f: or_usize },
            Workload { name: "left_zero", quick: 15_000, thorough: 240_000, f: left_zero },
            Workload { name: "right_zero", quick: 15_000, thorough: 240_000, f: right_zero },
            Workload { name: "argmin", quick: 300, thorough: 5000, f: by_ref },
        ],
        &["n=0"],
    )
}
