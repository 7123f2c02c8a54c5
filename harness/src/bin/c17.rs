//! C17 gcd / lcm / extended gcd over every primitive integer type; 8-bit types exhaustively.
use rust_cp::math::number_theory::{ex_gcd, gcd, lcm};
use vmon::*;

fn g(mut a: u128, mut b: u128) -> u128 {
    // binary gcd: independent of Euclid's remainder loop
    if a == 0 { return b }
    if b == 0 { return a }
    let s = (a | b).trailing_zeros();
    a >>= a.trailing_zeros();
    while b != 0 {
        b >>= b.trailing_zeros();
        if a > b { std::mem::swap(&mut a, &mut b) }
        b -= a;
    }
    a << s
}
macro_rules! uns {
    ($f:ident, $t:ty) => {
        fn $f(c: &mut Case, a: $t, b: $t) {
            let w = g(a as u128, b as u128);
            check_eq!(c, gcd(a, b) as u128, w, "gcd({}, {}) in {}", a, b, stringify!($t));
            if a != 0 || b != 0 {
                if let Some(l) = (a as u128 / w).checked_mul(b as u128).filter(|l| *l <= <$t>::MAX as u128) {
                    check_eq!(c, lcm(a, b) as u128, l, "lcm({}, {}) in {}", a, b, stringify!($t));
                    c.hit("lcm fits");
                }
            }
        }
    };
}
macro_rules! sig {
    ($f:ident, $t:ty) => {
        fn $f(c: &mut Case, a: $t, b: $t) {
            let w = g(a.unsigned_abs() as u128, b.unsigned_abs() as u128);
            let r = gcd(a, b);
            check_eq!(c, r.unsigned_abs() as u128, w, "gcd({}, {}) in {}", a, b, stringify!($t));
            check!(c, a < 0 || b < 0 || r >= 0, "gcd({}, {}) in {} is negative: {}", a, b, stringify!($t), r);
            if a != 0 || b != 0 {
                if let Some(l) = (a.unsigned_abs() as u128 / w).checked_mul(b.unsigned_abs() as u128).filter(|l| *l <= <$t>::MAX as u128) {
                    let q = lcm(a, b);
                    check_eq!(c, q.unsigned_abs() as u128, l, "magnitude of lcm({}, {}) in {}", a, b, stringify!($t));
                    c.hit("lcm fits");
                }
            }
            let (x, y, d) = ex_gcd(a, b);
            check_eq!(c, d.unsigned_abs() as u128, w, "gcd reported by ex_gcd({}, {}) in {}", a, b, stringify!($t));
            check!(c, bezout(a as i128, b as i128, x as i128, y as i128, d as i128), "ex_gcd({}, {}) in {} = ({}, {}, {}): {}*{} + {}*{} is not {}", a, b, stringify!($t), x, y, d, a, x, b, y, d);
            if a < 0 || b < 0 { c.hit("negative operand") }
        }
    };
}
/// a*x + b*y = d exactly (256-bit through two moduli plus magnitude bound is overkill: coefficients
/// are bounded by the operands, so check modulo 2^128 and modulo the prime 2^61-1)
fn bezout(a: i128, b: i128, x: i128, y: i128, d: i128) -> bool {
    let p = modp::P as i128;
    let m = |u: i128, v: i128| (u.rem_euclid(p) * v.rem_euclid(p)).rem_euclid(p);
    let q = 1_000_000_007i128;
    let m2 = |u: i128, v: i128| (u.rem_euclid(q) * v.rem_euclid(q)).rem_euclid(q);
    a.wrapping_mul(x).wrapping_add(b.wrapping_mul(y)) == d && (m(a, x) + m(b, y)).rem_euclid(p) == d.rem_euclid(p) && (m2(a, x) + m2(b, y)).rem_euclid(q) == d.rem_euclid(q)
}
uns!(fu8, u8); uns!(fu16, u16); uns!(fu32, u32); uns!(fu64, u64); uns!(fu128, u128); uns!(fus, usize);
sig!(fi8, i8); sig!(fi16, i16); sig!(fi32, i32); sig!(fi64, i64); sig!(fi128, i128); sig!(fis, isize);

/// all pairs of 8-bit operands (the one value whose magnitude is not representable excluded)
fn all8(c: &mut Case) {
    let a = c.idx as u8;
    op!(c, 1, [a], "{a} (as u8 and as i8) against every 8-bit value");
    for b in 0..=255u8 {
        fu8(c, a, b);
        if a as i8 != i8::MIN && b as i8 != i8::MIN { fi8(c, a as i8, b as i8) }
    }
    c.nontrivial = true;
}
fn mag(r: &mut Rng, bits: u32) -> u128 {
    match r.below(8) {
        0 => r.below(13) as u128,
        1 => (1u128 << (bits - 1)) - 1 + ((1u128 << (bits - 1)) - 1) + 1 - r.below(3) as u128, // top of the range
        2 => { let (mut x, mut y) = (1u128, 2u128); for _ in 0..r.below(180) { if y.checked_add(x).map_or(true, |z| bits < 128 && z >> bits != 0) { break } (x, y) = (y, x + y); } y }
        _ => r.bits(bits),
    }
}
/// a pair with a chosen common factor
fn pair(r: &mut Rng, bits: u32) -> (u128, u128) {
    let mask = if bits == 128 { u128::MAX } else { (1 << bits) - 1 };
    if r.chance(1, 3) {
        let k = r.range(1, bits as usize - 1) as u32;
        let f = r.bits(k).max(1);
        let (x, y) = (r.bits(bits - k), r.bits(bits - k));
        (x.wrapping_mul(f) & mask, y.wrapping_mul(f) & mask)
    } else {
        let a = mag(r, bits) & mask;
        let b = match r.below(6) { 0 => a, 1 => a.wrapping_sub(1) & mask, 2 => 0, _ => mag(r, bits) & mask };
        if r.chance(1, 2) { (a, b) } else { (b, a) }
    }
}
macro_rules! rnd { ($c:ident, $($bits:expr, $t:ty, $f:ident, $s:expr);*) => {$(
    for _ in 0..4 {
        let (x, y) = pair(&mut $c.rng, $bits);
        let (mut x, mut y) = (x as $t, y as $t);
        if $s {
            if x == <$t>::MIN { x = <$t>::MAX }
            if y == <$t>::MIN { y = <$t>::MAX }
            if $c.rng.chance(1, 3) { x = (0 as $t).wrapping_sub(x) }
            if $c.rng.chance(1, 3) { y = (0 as $t).wrapping_sub(y) }
        }
        op!($c, 2, [x, y], "{} {} in {}", x, y, stringify!($t));
        $f($c, x, y);
    })*
}; }
fn random(c: &mut Case) {
    rnd!(c, 8, u8, fu8, false; 16, u16, fu16, false; 32, u32, fu32, false; 64, u64, fu64, false; 128, u128, fu128, false; 64, usize, fus, false);
    rnd!(c, 8, i8, fi8, true; 16, i16, fi16, true; 32, i32, fi32, true; 64, i64, fi64, true; 128, i128, fi128, true; 64, isize, fis, true);
    c.nontrivial = true;
}
/// 16-bit operands: one value against every other (thorough: all of them)
fn all16(c: &mut Case) {
    let a = if c.tier == Tier::Thorough { c.idx as u16 } else { c.rng.u64() as u16 };
    op!(c, 1, [a], "{a} (as u16 and as i16) against every 16-bit value");
    for b in 0..=u16::MAX {
        fu16(c, a, b);
        if a as i16 != i16::MIN && b as i16 != i16::MIN { fi16(c, a as i16, b as i16) }
    }
    c.nontrivial = true;
}
fn main() {
    run(
        &[
            Workload { name: "all8", quick: 256, thorough: 256, f: all8 },
            Workload { name: "all16", quick: 24, thorough: 6000, f: all16 },
            Workload { name: "random", quick: 200_000, thorough: 6_000_000, f: random },
        ],
        &["lcm fits", "negative operand"],
    )
}
