//! C16 binomials and falling factorials vs. Pascal's triangle and a direct product.
use rust_cp::math::factorial::Factorial;
use rust_cp::misc::modint::{Mod1000000007, Mod998244353, Modulus};
use vmon::modmac::{mulmod, powmod};
use vmon::*;
macro_rules! moduli_local {
    ($($n:ident($v:expr)),*) => {$(
        #[derive(Copy, Clone, Eq, PartialEq)]
        pub enum $n {}
        impl Modulus for $n {
            const VALUE: u32 = $v;
            const HINT_VALUE_IS_PRIME: bool = $v != 101 && $v != 2_147_483_629; // both inverse routines
            fn butterfly_cache() -> &'static std::thread::LocalKey<std::cell::RefCell<Option<vmon::modmac::ButterflyCache<Self>>>> {
                thread_local! { static C: std::cell::RefCell<Option<vmon::modmac::ButterflyCache<$n>>> = Default::default(); }
                &C
            }
        }
    )*};
}
moduli_local! { P2(2), P3(3), P5(5), P7(7), P11(11), P13(13), P97(97), P101(101), P257(257), P65537(65537), P1e9p9(1_000_000_009), P31(2_147_483_647), P2b(2_147_483_629) }

fn falling(n: usize, k: usize, p: u64) -> u64 { (0..k).fold(1 % p, |a, i| (a as u128 * (n - i) as u128 % p as u128) as u64) }
fn table<M: Modulus>(c: &mut Case) {
    let p = M::VALUE as usize;
    let lim = if c.tier == Tier::Quick { 90 } else { 200 };
    // N is the case number, folded into 0..min(p, lim)
    let n = (c.idx as usize / 16) % p.min(lim);
    op!(c, 1, [p, n], "p={p} table up to N={n}, every n and k");
    let f = Factorial::<M>::new(n);
    let mut row: Vec<u64> = vec![];
    for a in 0..=n {
        let mut nx = vec![1u64; a + 1];
        for k in 1..a { nx[k] = (row[k - 1] + row[k]) % p as u64 }
        row = nx;
        for k in 0..=a {
            check_eq!(c, f.choose(a, k).val() as u64, row[k] % p as u64, "choose({},{}) mod {} (table {})", a, k, p, n);
            check_eq!(c, f.perm(a, k).val() as u64, falling(a, k, p as u64), "perm({},{}) mod {} (table {})", a, k, p, n);
        }
    }
    if n + 1 == p { c.hit("N = p-1") }
    if n == 0 { c.hit("N = 0") }
    c.nontrivial = n > 1;
}
macro_rules! pick { ($k:expr, $f:ident, $c:expr) => {{
    let fs: &[fn(&mut Case)] = &[$f::<P2>, $f::<P3>, $f::<P5>, $f::<P7>, $f::<P11>, $f::<P13>, $f::<P97>, $f::<P101>, $f::<P257>, $f::<P65537>, $f::<P1e9p9>, $f::<P31>, $f::<P2b>, $f::<Mod1000000007>, $f::<Mod998244353>];
    fs[$k as usize % fs.len()]($c)
}}; }
fn tables(c: &mut Case) { let k = c.idx % 16; pick!(k, table, c) }
fn big<M: Modulus>(c: &mut Case) {
    let p = M::VALUE as usize;
    let n = match c.rng.below(8) { _ if c.exact > 0 => c.exact.min(p - 1), _ if c.giant => gen::giant_n(c).min(p - 1), 0 | 1 if p <= 70_000 => p - 1, 2 => gen::huge_n(&mut c.rng).min(p - 1), _ => c.rng.range(1, 60_000.min(p - 1)) };
    op!(c, 2, [p, n], "p={p} N={n}");
    let f = Factorial::<M>::new(n);
    // independent factorials
    let mut fac = vec![1u64; n + 1];
    for i in 1..=n { fac[i] = (fac[i - 1] as u128 * i as u128 % p as u128) as u64 }
    for _ in 0..60 {
        let a = match c.rng.below(8) { 0 | 1 => n, 2 => n - c.rng.below(n.min(4) + 1), _ => c.rng.below(n + 1) };
        let k = match c.rng.below(10) { 0 => 0, 1 => a, 2 => c.rng.below(a.min(5) + 1), 3 => a - c.rng.below(a.min(5) + 1), 4 => a / 2, 5 => c.rng.below(a + 1).min(c.rng.below(1 << 17)), _ => c.rng.below(a + 1) };
        op!(c, 3, [a, k], "n={a} k={k}");
        let ch = f.choose(a, k).val() as u128;
        check!(c, ch < p as u128 && mulmod(mulmod(ch, fac[k] as u128, p as u128), fac[a - k] as u128, p as u128) == fac[a] as u128, "choose({},{}) mod {} = {}", a, k, p, ch);
        let pe = f.perm(a, k).val() as u128;
        check!(c, pe < p as u128 && mulmod(pe, fac[a - k] as u128, p as u128) == fac[a] as u128, "perm({},{}) mod {} = {}", a, k, p, pe);
        if k < 200 { check_eq!(c, pe as u64, falling(a, k, p as u64), "perm({},{}) mod {}", a, k, p) }
    }
    // row sum
    if n < 3000 {
        let s = (0..=n).fold(0u64, |s, k| (s + f.choose(n, k).val() as u64) % p as u64);
        check_eq!(c, s, powmod(2, n as u64, p as u128) as u64, "row sum of n={} mod {}", n, p);
    }
    c.max("largest N", n as u64);
    c.nontrivial = true;
}
fn bigs(c: &mut Case) { let k = c.idx; pick!(k, big, c) }
/// tables of more than 2^20 entries
fn big_giant(c: &mut Case) {
    c.giant = true;
    let k = [13, 14, 11, 12, 10, 9][c.idx as usize % 6];
    pick!(k, big, c)
}
/// one case for every size
fn sizes(c: &mut Case) {
    c.exact = c.idx as usize / 5 + 1;
    let k = [9, 10, 12, 13, 14][c.idx as usize % 5];
    pick!(k, big, c)
}
fn main() {
    run(
        &[
            Workload { name: "tables", quick: 16 * 90, thorough: 16 * 200, f: tables },
            Workload { name: "big", quick: 1800, thorough: 36000, f: bigs },
            Workload { name: "sizes", quick: 11000, thorough: 50000, f: sizes },
            Workload { name: "giant", quick: 4, thorough: 48, f: big_giant },
        ],
        &["N = p-1", "N = 0"],
    )
}
