//! C13 modular arithmetic vs. exact integers, all moduli kinds, primitive types and operand forms.
use rust_cp::misc::modint::{DynamicModInt, Id, ModIntBase, Modulus, StaticModInt};
use vmon::modmac::*;
use vmon::*;

fn rem_i(x: i128, m: u32) -> u32 { x.rem_euclid(m as i128) as u32 }
fn rem_u(x: u128, m: u32) -> u32 { (x % m as u128) as u32 }

macro_rules! int_forms {
    ($c:ident, $Z:ty, $m:ident, $x:ident, $xv:ident; $($t:ty, $wide:ty, $rem:ident);*) => {$(
        for _ in 0..2 {
            let y: $t = match $c.rng.below(5) { 0 => <$t>::MIN, 1 => <$t>::MAX, 2 => ($c.rng.u128() as $t) >> $c.rng.below(<$t>::BITS as usize), 3 => (($m as u128).wrapping_mul($c.rng.below(4) as u128).wrapping_add($c.rng.below(3) as u128).wrapping_sub(1)) as $t, _ => $c.rng.u128() as $t };
            let yv = $rem(y as $wide, $m);
            op!($c, 7, [y, $xv, $m], "m={} x={} with {}{}", $m, $xv, y, stringify!($t));
            check_eq!($c, <$Z>::new(y).val(), yv, "new({}{}) mod {}", y, stringify!($t), $m);
            check_eq!($c, <$Z>::from(y).val(), yv, "from({}{}) mod {}", y, stringify!($t), $m);
            check_eq!($c, <$Z as ModIntBase>::new(y).val(), yv, "ModIntBase::new({}{}) mod {}", y, stringify!($t), $m);
            check_eq!($c, y.rem_euclid_u32($m), yv, "rem_euclid_u32({}{}) mod {}", y, stringify!($t), $m);
            let (s, d, p) = exact($xv, yv, $m);
            check_eq!($c, (($x + y).val(), ($x - y).val(), ($x * y).val()), (s, d, p), "{} +,-,* {}{} mod {}", $xv, y, stringify!($t), $m);
            let (mut a1, mut a2, mut a3) = ($x, $x, $x);
            a1 += y;
            a2 -= y;
            a3 *= y;
            check_eq!($c, (a1.val(), a2.val(), a3.val()), (s, d, p), "{} +=,-=,*= {}{} mod {}", $xv, y, stringify!($t), $m);
        }
    )*};
}
fn exact(a: u32, b: u32, m: u32) -> (u32, u32, u32) {
    let (a, b, m) = (a as u64, b as u64, m as u64);
    (((a + b) % m) as u32, ((a + m - b) % m) as u32, (a as u128 * b as u128 % m as u128) as u32)
}
fn by_trait<Z: ModIntBase + std::ops::AddAssign>(c: &mut Case, a: u32, b: u32, m: u32) {
    let (x, y) = (Z::raw(a), Z::new(b));
    let (s, d, p) = exact(a, b, m);
    check_eq!(c, ((x + y).val(), (x - y).val(), (x * y).val(), (-x).val()), (s, d, p, exact(0, a, m).1), "trait-generic ops on {} {} mod {}", a, b, m);
    let (mut a1, mut a2, mut a3) = (x, x, x);
    a1 += y;
    a2 -= y;
    a3 *= y;
    check_eq!(c, (a1.val(), a2.val(), a3.val()), (s, d, p), "trait-generic compound ops on {} {} mod {}", a, b, m);
    check_eq!(c, Z::modulus(), m, "trait modulus");
    check_eq!(c, Z::default().val(), 0, "trait default");
}
macro_rules! suite {
    ($ops:ident, $types:ident, $fold:ident, $P:ident : $B:ident, $Z:ty) => {
        fn $ops<$P: $B>(c: &mut Case) {
            let m = <$Z>::modulus();
            for _ in 0..12 {
                let (a, b) = (residue(&mut c.rng, m), residue(&mut c.rng, m));
                op!(c, 1, [m, a, b], "m={m} {a} op {b}");
                let (x, y) = (<$Z>::raw(a), <$Z>::raw(b));
                let (s, d, p) = exact(a, b, m);
                let want = (s, d, p);
                check_eq!(c, ((x + y).val(), (x - y).val(), (x * y).val()), want, "{} +,-,* {} mod {}", a, b, m);
                check_eq!(c, ((x + &y).val(), (x - &y).val(), (x * &y).val()), want, "{} +,-,* &{} mod {}", a, b, m);
                check_eq!(c, ((&x + y).val(), (&x - y).val(), (&x * y).val()), want, "&{} +,-,* {} mod {}", a, b, m);
                check_eq!(c, ((&x + &y).val(), (&x - &y).val(), (&x * &y).val()), want, "&{} +,-,* &{} mod {}", a, b, m);
                let (mut a1, mut a2, mut a3) = (x, x, x);
                a1 += y;
                a2 -= y;
                a3 *= y;
                check_eq!(c, (a1.val(), a2.val(), a3.val()), want, "{} +=,-=,*= {} mod {}", a, b, m);
                let (mut a1, mut a2, mut a3) = (x, x, x);
                a1 += &y;
                a2 -= &y;
                a3 *= &y;
                check_eq!(c, (a1.val(), a2.val(), a3.val()), want, "{} +=,-=,*= &{} mod {}", a, b, m);
                let ng = exact(0, a, m).1;
                check_eq!(c, ((-x).val(), (-&x).val()), (ng, ng), "-{} mod {}", a, m);
                let mut z = x;
                z += z;
                let zz = exact(a, a, m);
                check_eq!(c, z.val(), zz.0, "{} += itself mod {}", a, m);
                z = x;
                z *= z;
                check_eq!(c, z.val(), zz.2, "{} *= itself mod {}", a, m);
                by_trait::<$Z>(c, a, b, m);
                let e = match c.rng.below(4) { 0 => c.rng.below(5) as u64, 1 => u64::MAX - c.rng.below(3) as u64, _ => c.rng.bits(64) as u64 };
                let w = powmod(a as u128, e, m as u128) as u32;
                check_eq!(c, (x.pow(e).val(), <$Z as ModIntBase>::pow(x, e).val()), (w, w), "{}^{} mod {}", a, e, m);
                c.h(e);
            }
            c.nontrivial = m > 1;
        }
        fn $types<$P: $B>(c: &mut Case) {
            let m = <$Z>::modulus();
            let xv = residue(&mut c.rng, m);
            let x = <$Z>::raw(xv);
            int_forms!(c, $Z, m, x, xv; i8, i128, rem_i; i16, i128, rem_i; i32, i128, rem_i; i64, i128, rem_i; i128, i128, rem_i; isize, i128, rem_i;
                u8, u128, rem_u; u16, u128, rem_u; u32, u128, rem_u; u64, u128, rem_u; u128, u128, rem_u; usize, u128, rem_u);
            c.nontrivial = m > 1;
        }
        fn $fold<$P: $B>(c: &mut Case) {
            let m = <$Z>::modulus();
            let n = c.size(200);
            let v: Vec<u32> = (0..n).map(|_| residue(&mut c.rng, m)).collect();
            op!(c, 2, [m, n], "m={m} fold {:?}", v);
            for &x in &v { c.h(x as u64) }
            let z: Vec<$Z> = v.iter().map(|&x| <$Z>::raw(x)).collect();
            let s = (v.iter().map(|&x| x as u128).sum::<u128>() % m as u128) as u32;
            let p = v.iter().fold(1 % m as u128, |a, &x| a * x as u128 % m as u128) as u32;
            check_eq!(c, z.iter().sum::<$Z>().val(), s, "sum of references, m={}", m);
            check_eq!(c, z.iter().copied().sum::<$Z>().val(), s, "sum of values, m={}", m);
            check_eq!(c, z.iter().product::<$Z>().val(), p, "product of references, m={}", m);
            check_eq!(c, z.iter().copied().product::<$Z>().val(), p, "product of values, m={}", m);
            // a random expression, evaluated exactly alongside
            let mut acc = <$Z>::new(1);
            let mut w = 1 % m;
            for &x in &v {
                let y = <$Z>::raw(x);
                let k = c.rng.below(6);
                c.h(k as u64);
                match k {
                    0 => { acc += y; w = exact(w, x, m).0; }
                    1 => { acc = acc - y; w = exact(w, x, m).1; }
                    2 => { acc = y - acc; w = exact(x, w, m).1; }
                    3 => { acc = -acc; w = exact(0, w, m).1; }
                    4 => { acc *= &y; w = exact(w, x, m).2; }
                    _ => { acc = acc.pow(x as u64 % 5); w = powmod(w as u128, x as u64 % 5, m as u128) as u32; }
                }
                check!(c, acc.val() < m, "representative {} not below the modulus {}", acc.val(), m);
                check_eq!(c, acc.val(), w, "running expression mod {}", m);
            }
            if n == 0 { c.hit("empty fold") }
            c.nontrivial = m > 1 && n > 1;
        }
    };
}
suite!(s_ops, s_types, s_fold, M: Modulus, StaticModInt<M>);
suite!(d_ops, d_types, d_fold, I: Id, DynamicModInt<I>);

fn static_ops(c: &mut Case) { let k = c.idx; with_static!(k, s_ops, c) }
fn static_types(c: &mut Case) { let k = c.idx; with_static!(k, s_types, c) }
fn static_fold(c: &mut Case) { let k = c.idx; with_static!(k, s_fold, c) }
fn set(c: &mut Case) -> u32 {
    let m = modulus(&mut c.rng);
    op!(c, 9, [m], "set_modulus({m})");
    DynamicModInt::<DynA>::set_modulus(m);
    check_eq!(c, DynamicModInt::<DynA>::modulus(), m, "modulus after set_modulus");
    if m == 1 { c.hit("modulus 1") }
    if m == 1 << 31 { c.hit("modulus 2^31") }
    m
}
fn dyn_ops(c: &mut Case) { set(c); d_ops::<DynA>(c) }
fn dyn_types(c: &mut Case) { set(c); d_types::<DynA>(c) }
fn dyn_fold(c: &mut Case) { set(c); d_fold::<DynA>(c) }
/// every pair of residues for small run-time moduli
fn dyn_small(c: &mut Case) {
    let m = c.idx as u32 + 1;
    op!(c, 9, [m], "m={m}, every pair");
    type Z = DynamicModInt<DynA>;
    Z::set_modulus(m);
    for a in 0..m {
        for b in 0..m {
            let (x, y) = (Z::raw(a), Z::raw(b));
            check_eq!(c, ((x + y).val(), (x - y).val(), (x * y).val()), exact(a, b, m), "{} +,-,* {} mod {}", a, b, m);
        }
        for e in 0..12u64 { check_eq!(c, Z::raw(a).pow(e).val(), powmod(a as u128, e, m as u128) as u32, "{}^{} mod {}", a, e, m) }
    }
    c.nontrivial = m > 1;
}
/// products near multiples of the modulus: where a reciprocal-based reduction could be off by one
fn dyn_near(c: &mut Case) {
    type Z = DynamicModInt<DynA>;
    let m = set(c);
    for _ in 0..40 {
        // b = ±k / a mod m, so that a*b = ±k mod m exactly
        let a = residue(&mut c.rng, m).max(1) % m.max(2);
        let k = c.rng.below(3) as i128;
        let b = if m > 1 && a > 0 && gcd(a as u64, m as u64) == 1 {
            let inv = inv(a as i128, m as i128);
            let s = if c.rng.chance(1, 2) { k } else { -k };
            (inv * s).rem_euclid(m as i128) as u32
        } else { residue(&mut c.rng, m) };
        let a = a % m;
        op!(c, 1, [a, b], "{a} * {b} mod {m}");
        check_eq!(c, (Z::raw(a) * Z::raw(b)).val(), exact(a, b, m).2, "{} * {} mod {}", a, b, m);
    }
    c.nontrivial = m > 1;
}
fn inv(a: i128, m: i128) -> i128 {
    let (mut r0, mut r1, mut t0, mut t1) = (m, a, 0i128, 1i128);
    while r1 != 0 { let q = r0 / r1; (r0, r1) = (r1, r0 - q * r1); (t0, t1) = (t1, t0 - q * t1); }
    t0.rem_euclid(m)
}
fn main() {
    run(
        &[
            Workload { name: "dyn_small", quick: 90, thorough: 400, f: dyn_small },
            Workload { name: "static_ops", quick: 80_000, thorough: 1_800_000, f: static_ops },
            Workload { name: "static_types", quick: 80_000, thorough: 1_800_000, f: static_types },
            Workload { name: "static_fold", quick: 32_000, thorough: 600_000, f: static_fold },
            Workload { name: "dyn_ops", quick: 240_000, thorough: 6_000_000, f: dyn_ops },
            Workload { name: "dyn_types", quick: 160_000, thorough: 4_500_000, f: dyn_types },
            Workload { name: "dyn_fold", quick: 60_000, thorough: 1_200_000, f: dyn_fold },
            Workload { name: "dyn_near", quick: 240_000, thorough: 6_000_000, f: dyn_near },
        ],
        &["modulus 1", "modulus 2^31", "empty fold"],
    )
}
