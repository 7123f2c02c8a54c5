//! C27 ready-made monoids, constants of the primitive integer types, floor and ceiling logarithms.
use rust_cp::misc::monoids::*;
use rust_cp::misc::util::{ceil_lg, lg};
use rust_cp::traits::monoid::Monoid;
use rust_cp::traits::numeric::*;
use std::fmt::Debug;
use vmon::*;

type F<S> = fn(&S, &S) -> S;
/// associativity, identity laws and the named operation, for one triple
fn laws<M: Monoid>(c: &mut Case, name: &str, x: &M::S, y: &M::S, z: &M::S, want: F<M::S>)
where M::S: PartialEq + Debug {
    let e = M::identity();
    check_eq!(c, M::binary_operation(x, y), want(x, y), "{} of {:?} and {:?}", name, x, y);
    check_eq!(c, M::binary_operation(&e, x), *x, "{}: identity on the left of {:?}", name, x);
    check_eq!(c, M::binary_operation(x, &e), *x, "{}: identity on the right of {:?}", name, x);
    check_eq!(c, M::binary_operation(&M::binary_operation(x, y), z), M::binary_operation(x, &M::binary_operation(y, z)), "{}: associativity at {:?}, {:?}, {:?}", name, x, y, z);
}
macro_rules! per_type {
    ($($f:ident $t:ident $w:expr),*) => {$(
        fn $f(c: &mut Case) {
            let mut v = |k: usize| -> $t {
                let r = &mut c.rng;
                let b = <$t>::BITS;
                let (lo, hi) = (<$t>::MIN, <$t>::MAX);
                match k {
                    0 => *r.pick(&[lo, hi, 0, 1, lo + 1, hi - 1, hi / 2]),
                    1 => { let x = r.u128() as $t; x }
                    _ => { let x = (r.bits(b) & (u128::MAX >> (129 - b))) as $t; if lo != 0 && r.chance(1, 2) { (0 as $t).wrapping_sub(x) } else { x } }
                }
            };
            let k = [v(0), v(1), v(2), v(0), v(2), v(1)];
            c.rng.u64();
            for _ in 0..6 {
                let (x, y, z) = (*c.rng.pick(&k), *c.rng.pick(&k), *c.rng.pick(&k));
                op!(c, 2, [x, y, z, $w], "{}: {x}, {y}, {z}", stringify!($t));
                laws::<Max<$t>>(c, "max", &x, &y, &z, |a, b| if a > b { *a } else { *b });
                laws::<Min<$t>>(c, "min", &x, &y, &z, |a, b| if a < b { *a } else { *b });
                // sums and products that fit at every step
                if x.checked_add(y).and_then(|s| s.checked_add(z)).is_some() && y.checked_add(z).is_some() {
                    laws::<Additive<$t>>(c, "sum", &x, &y, &z, |a, b| a.wrapping_add(*b));
                    c.hit("sum fits");
                }
                let h = <$t>::BITS / 3;
                let s = |q: $t| q >> (<$t>::BITS - h);
                let (x, y, z) = (s(x), s(y), s(z));
                if x.checked_mul(y).and_then(|p| p.checked_mul(z)).is_some() && y.checked_mul(z).is_some() {
                    laws::<Multiplicative<$t>>(c, "product", &x, &y, &z, |a, b| a.wrapping_mul(*b));
                    c.hit("product fits");
                }
            }
            c.nontrivial = true;
        }
    )*};
}
per_type!(r_i8 i8 0, r_i16 i16 1, r_i32 i32 2, r_i64 i64 3, r_i128 i128 4, r_isize isize 5, r_u8 u8 6, r_u16 u16 7, r_u32 u32 8, r_u64 u64 9, r_u128 u128 10, r_usize usize 11);
macro_rules! consts { ($($t:ident),*) => {
    fn constants(c: &mut Case) {
        op!(c, 1, [], "constants of the twelve types");
        $(
            check_eq!(c, <$t as Zero>::zero(), 0 as $t, "zero of {}", stringify!($t));
            check_eq!(c, <$t as One>::one(), 1 as $t, "one of {}", stringify!($t));
            // by definition rather than by name: nothing is below / above it
            let (lo, hi) = (<$t as BoundedBelow>::min_value(), <$t as BoundedAbove>::max_value());
            check!(c, lo.checked_sub(1).is_none() && hi.checked_add(1).is_none() && lo <= hi, "bounds of {}: {lo}..={hi}", stringify!($t));
            check_eq!(c, Max::<$t>::identity(), lo, "identity of max over {}", stringify!($t));
            check_eq!(c, Min::<$t>::identity(), hi, "identity of min over {}", stringify!($t));
            check_eq!(c, Additive::<$t>::identity(), 0 as $t, "identity of the sum over {}", stringify!($t));
            check_eq!(c, Multiplicative::<$t>::identity(), 1 as $t, "identity of the product over {}", stringify!($t));
        )*
        c.nontrivial = true;
    }
} }
consts!(i8, i16, i32, i64, i128, isize, u8, u16, u32, u64, u128, usize);
fn random(c: &mut Case) {
    let fs: [fn(&mut Case); 12] = [r_i8, r_i16, r_i32, r_i64, r_i128, r_isize, r_u8, r_u16, r_u32, r_u64, r_u128, r_usize];
    let i = c.rng.below(12);
    fs[i](c)
}
/// every pair of 8-bit values with one third value from each region
fn all8(c: &mut Case) {
    let a = c.idx as u8;
    op!(c, 3, [a], "every 8-bit pair ({a}, y)");
    let zs = [0u8, 1, 2, 127, 128, 129, 254, 255, c.rng.u64() as u8];
    for b in 0..=255u8 {
        for &z in &zs {
            laws::<Max<u8>>(c, "max", &a, &b, &z, |p, q| if p > q { *p } else { *q });
            laws::<Min<u8>>(c, "min", &a, &b, &z, |p, q| if p < q { *p } else { *q });
            let (x, y, w) = (a as i8, b as i8, z as i8);
            laws::<Max<i8>>(c, "max", &x, &y, &w, |p, q| if p > q { *p } else { *q });
            laws::<Min<i8>>(c, "min", &x, &y, &w, |p, q| if p < q { *p } else { *q });
            if a as u32 + b as u32 + z as u32 <= 255 { laws::<Additive<u8>>(c, "sum", &a, &b, &z, |p, q| p.wrapping_add(*q)) }
            let f8 = |v: i32| (-128..128).contains(&v);
            let (xi, yi, wi) = (x as i32, y as i32, w as i32);
            if f8(xi + yi) && f8(yi + wi) && f8(xi + yi + wi) { laws::<Additive<i8>>(c, "sum", &x, &y, &w, |p, q| p.wrapping_add(*q)) }
            if a as u32 * b as u32 * (z as u32).max(1) <= 255 && b as u32 * z as u32 <= 255 { laws::<Multiplicative<u8>>(c, "product", &a, &b, &z, |p, q| p.wrapping_mul(*q)) }
            if f8(xi * yi) && f8(yi * wi) && f8(xi * yi * wi) { laws::<Multiplicative<i8>>(c, "product", &x, &y, &w, |p, q| p.wrapping_mul(*q)) }
        }
    }
    c.nontrivial = true;
}
fn floor_ref(x: u128) -> u32 { let mut k = 0; while x >> k > 1 { k += 1 } k }
/// 2^16 consecutive arguments
fn logs_block(c: &mut Case) {
    let lo = c.idx << 16;
    op!(c, 4, [c.idx], "logarithms of {lo}..{}", lo + 65536);
    // within the block the answers change only at powers of two
    let mut fl = floor_ref((lo as u128).max(1));
    for i in 0..65536u64 {
        let n = lo + i;
        if n > 0 {
            while n >> fl > 1 { fl += 1 }
            if lg(n as usize) != fl { violation(format!("lg({n}) = {}, want {fl}", lg(n as usize))) }
        }
        if n <= u32::MAX as u64 {
            let want = if n <= 1 { 0 } else { fl + (n & (n - 1) != 0) as u32 };
            if ceil_lg(n as u32) != want { violation(format!("ceil_lg({n}) = {}, want {want}", ceil_lg(n as u32))) }
        }
    }
    c.events += 131072;
    c.nontrivial = true;
}
/// spread over the whole 32-bit range in quick, every block in thorough
fn logs32(c: &mut Case) {
    let save = c.idx;
    if c.total < 65536 {
        c.idx = match save { 0..=31 => save, 32..=63 => 65535 - (save - 32), 64..=95 => (1u64 << (save - 64).min(15)) - ((save & 1) != 0) as u64, _ => c.rng.below(65536) as u64 };
    }
    logs_block(c);
    c.idx = save;
}
fn logs64(c: &mut Case) {
    for _ in 0..64 {
        let k = c.rng.below(64) as u32;
        let p = 1u64 << k;
        let n = match c.rng.below(5) { 0 => p, 1 => p - 1, 2 => p.saturating_add(1), 3 => p.wrapping_mul(2).wrapping_sub(1), _ => c.rng.bits(64) as u64 };
        if n == 0 { continue }
        op!(c, 5, [n], "lg({n})");
        check_eq!(c, lg(n as usize), floor_ref(n as u128), "lg({})", n);
        let m = n as u32;
        let want = if m <= 1 { 0 } else { floor_ref(m as u128 - 1) + 1 };
        check_eq!(c, ceil_lg(m), want, "ceil_lg({})", m);
    }
    c.nontrivial = true;
}
/// the monoids over a type of the user's own
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
struct Own(i32, u8);
impl BoundedBelow for Own { fn min_value() -> Own { Own(i32::MIN, 0) } }
impl BoundedAbove for Own { fn max_value() -> Own { Own(i32::MAX, 255) } }
#[derive(Clone, Copy, PartialEq, Debug)]
struct Mat([[u64; 2]; 2]);
impl std::ops::Mul for Mat {
    type Output = Mat;
    fn mul(self, o: Mat) -> Mat {
        let mut r = [[0u64; 2]; 2];
        for i in 0..2 { for j in 0..2 { for k in 0..2 { r[i][j] = r[i][j].wrapping_add(self.0[i][k].wrapping_mul(o.0[k][j])) } } }
        Mat(r)
    }
}
impl One for Mat { fn one() -> Mat { Mat([[1, 0], [0, 1]]) } }
#[derive(Clone, Copy, PartialEq, Debug)]
struct Cat(u64, u32); // digits in base 8 with a length: a non-commutative "sum"
impl std::ops::Add for Cat { type Output = Cat; fn add(self, o: Cat) -> Cat { Cat(self.0 << (3 * o.1) | o.0, self.1 + o.1) } }
impl Zero for Cat { fn zero() -> Cat { Cat(0, 0) } }
fn own(c: &mut Case) {
    let mut o = || Own(*c.rng.pick(&[i32::MIN, -1, 0, 1, i32::MAX]), *c.rng.pick(&[0, 1, 255]));
    let (x, y, z) = (o(), o(), o());
    op!(c, 6, [x.0, x.1, y.0, y.1, z.0, z.1], "own ordered type {:?} {:?} {:?}", x, y, z);
    laws::<Max<Own>>(c, "max", &x, &y, &z, |a, b| if a > b { *a } else { *b });
    laws::<Min<Own>>(c, "min", &x, &y, &z, |a, b| if a < b { *a } else { *b });
    let mut m = || Mat([[c.rng.u64(), c.rng.u64()], [c.rng.u64(), c.rng.u64()]]);
    let (x, y, z) = (m(), m(), m());
    laws::<Multiplicative<Mat>>(c, "product", &x, &y, &z, |a, b| *a * *b);
    let mut k = || { let l = c.rng.below(6) as u32; Cat(c.rng.u64() & ((1 << (3 * l)) - 1), l) };
    let (x, y, z) = (k(), k(), k());
    laws::<Additive<Cat>>(c, "sum", &x, &y, &z, |a, b| *a + *b);
    c.hit("own types");
    c.nontrivial = true;
}
fn main() {
    run(
        &[
            Workload { name: "constants", quick: 1, thorough: 1, f: constants },
            Workload { name: "all8", quick: 256, thorough: 256, f: all8 },
            Workload { name: "random", quick: 80_000, thorough: 2_000_000, f: random },
            Workload { name: "own", quick: 20_000, thorough: 200_000, f: own },
            Workload { name: "logs32", quick: 65536, thorough: 65536, f: logs32 },
            Workload { name: "logs64", quick: 20_000, thorough: 400_000, f: logs64 },
        ],
        &["sum fits", "product fits", "own types"],
    )
}
