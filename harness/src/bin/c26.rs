//! C26 the crate-private number-theoretic kernels (through the guarded re-export) vs. a sieve,
//! trial division and 128-bit arithmetic.
#![cfg_attr(not(rust_cp_verif), allow(unused_imports, dead_code))]
#[cfg(not(rust_cp_verif))]
fn main() {
    eprintln!("this monitor needs RUSTFLAGS='--cfg rust_cp_verif'");
    std::process::exit(3);
}
#[cfg(rust_cp_verif)]
fn main() {
    imp::main()
}
#[cfg(rust_cp_verif)]
mod imp {
    use rust_cp::verif_hooks as k;
    use std::sync::OnceLock;
    use vmon::modmac::{modulus, powmod, residue};
    use vmon::*;

    /// primes up to 46349 (square root of 2^31)
    fn primes() -> &'static [u32] {
        static P: OnceLock<Vec<u32>> = OnceLock::new();
        P.get_or_init(|| {
            let n = 46_350;
            let mut s = vec![true; n];
            let mut v = vec![];
            for i in 2..n { if s[i] { v.push(i as u32); let mut j = i * i; while j < n { s[j] = false; j += i } } }
            v
        })
    }
    fn is_prime_ref(n: u64) -> bool { n >= 2 && primes().iter().map(|&p| p as u64).take_while(|p| p * p <= n).all(|p| n % p != 0) }
    fn factors(mut n: u64) -> Vec<u64> {
        let mut v = vec![];
        for &p in primes() { let p = p as u64; if p * p > n { break } if n % p == 0 { v.push(p); while n % p == 0 { n /= p } } }
        if n > 1 { v.push(n) }
        v
    }
    const SEG: u64 = 1 << 20;
    /// one block of 2^20 consecutive integers, decided by a segmented sieve
    fn block(c: &mut Case, b: u64) {
        let lo = b * SEG;
        op!(c, 1, [b], "every n in {}..{}", lo, lo + SEG);
        let mut comp = vec![false; SEG as usize];
        for &p in primes() {
            let p = p as u64;
            if p * p >= lo + SEG { break }
            let mut j = (p * p).max(lo.div_ceil(p) * p);
            while j < lo + SEG { comp[(j - lo) as usize] = true; j += p }
        }
        for i in 0..SEG {
            let n = lo + i;
            let want = n >= 2 && !comp[i as usize];
            if k::is_prime(n as i32) != want { violation(format!("is_prime({n}) = {}, want {want}", !want)) }
        }
        c.events += SEG;
        c.nontrivial = true;
    }
    const BLOCKS: u64 = (1 << 31) / SEG; // 2048
    /// quick: the two builds take alternate blocks, so that together they cover every n; thorough: both take all
    fn sieve_all(c: &mut Case) {
        let b = if c.total == BLOCKS { c.idx } else { 2 * c.idx + !cfg!(debug_assertions) as u64 };
        block(c, b)
    }
    fn negatives(c: &mut Case) {
        op!(c, 2, [c.idx], "negative n, block {}", c.idx);
        for j in 0..2000u64 {
            let n = if c.idx == 0 { -(j as i64) } else if c.idx == 1 { i32::MIN as i64 + j as i64 } else { -(c.rng.bits(31) as i64) };
            check!(c, !k::is_prime(n as i32), "is_prime({n}) is true");
        }
        c.nontrivial = true;
    }
    /// composites that fool Miller-Rabin to small bases, Carmichael numbers, squares and products of close primes
    fn hard(c: &mut Case) {
        let fixed: &[u64] = &[2047, 1373653, 25326001, 3215031751, 1_194_649, 12_327_121, 4097, 3277, 4033, 4681, 8321, 561, 1105, 1729, 2465, 2821, 6601, 8911, 10585, 15841, 29341, 41041, 46657, 52633, 62745, 63973, 75361, 314821, 1_082_401, 4_759_123, 9_080_191, 4_759_123_141 % (1 << 31), 2_147_483_647, 2_147_483_629, 2_147_483_646, 2_147_483_645, 701928443, 1_000_000_007, 998_244_353, 57, 61, 59, 7, 49, 343, 3721, 122, 14, 427];
        let n = match c.rng.below(5) {
            0 => *c.rng.pick(fixed),
            1 => { let p = *c.rng.pick(primes()) as u64; p * p }
            2 => { let i = c.rng.below(primes().len() - 3); let p = primes()[i] as u64; p * primes()[i + 1 + c.rng.below(2)] as u64 }
            // p * (2p - 1), p * (k(p-1) + 1): the classical shapes of strong pseudoprimes
            3 => { let p = *c.rng.pick(&primes()[..3500]) as u64; let t = c.rng.range(2, 12) as u64; p * (t * (p - 1) + 1) }
            _ => { let p = *c.rng.pick(&primes()[..200]) as u64; p * *c.rng.pick(&primes()[..200]) as u64 * *c.rng.pick(&primes()[..200]) as u64 }
        };
        if n >= 1 << 31 { return }
        op!(c, 3, [n], "is_prime({n})");
        check_eq!(c, k::is_prime(n as i32), is_prime_ref(n), "is_prime({})", n);
        c.nontrivial = true;
    }
    fn root_ok(c: &mut Case, p: u64) {
        op!(c, 4, [p], "primitive_root({p})");
        let g = k::primitive_root(p as i32) as u64;
        if p == 2 { check_eq!(c, g, 1, "primitive_root(2)"); return }
        let fs = factors(p - 1);
        let gen = |x: u64| x % p != 0 && fs.iter().all(|q| powmod(x as u128, (p - 1) / q, p as u128) != 1);
        check!(c, g > 0 && g < p && gen(g), "primitive_root({p}) = {g} does not generate");
        let least = (1..p).find(|&x| gen(x)).unwrap();
        check_eq!(c, g, least, "least primitive root of {}", p);
        c.nontrivial = true;
        if fs.len() >= 8 { c.hit("p-1 with many prime factors") }
        if *fs.last().unwrap() > 46_341 { c.hit("p-1 with a large prime factor") }
        if fs.last().map_or(false, |q| (p - 1) % (q * q) == 0) { c.hit("p-1 with its largest prime squared") }
        c.max("largest least root", g);
    }
    fn small_roots(c: &mut Case) {
        // the idx-th stretch of 100 primes
        let i = c.idx as usize * 100;
        for &p in primes().iter().skip(i).take(100) { root_ok(c, p as u64) }
    }
    fn next_prime(mut n: u64) -> u64 { loop { if is_prime_ref(n) { return n } n += 1 } }
    fn roots(c: &mut Case) {
        let special = [167_772_161u64, 469_762_049, 754_974_721, 998_244_353, 1_000_000_007, 2_147_483_647, 1_000_000_009, 2_013_265_921, 1_004_535_809, 985_661_441, 943_718_401, 935_329_793, 918_552_577, 897_581_057, 880_803_841, 65537, 257, 1_224_736_769, 2_113_929_217, 409, 191, 5881, 110881, 760321, 71, 5, 3, 2];
        let p = match c.rng.below(7) {
            0 => special[c.idx as usize % special.len()],
            1 => next_prime(c.rng.bits(31) as u64 % ((1 << 31) - 500) + 2),
            2 => next_prime((1 << 31) - 1 - c.rng.below(2_000_000) as u64),
            // p = k * (product of many small primes) + 1
            3 => { let b = *c.rng.pick(&[2 * 3 * 5 * 7 * 11 * 13 * 17 * 19u64, 2 * 3 * 5 * 7 * 11 * 13 * 17, 223_092_870, 2 * 3 * 5 * 7 * 11 * 13]); (1..(1u64 << 31) / b).map(|_| c.rng.range(1, ((1u64 << 31) / b) as usize - 1) as u64 * b + 1).find(|&n| is_prime_ref(n)).unwrap_or(223_092_870 + 1 + 0).max(3) }
            // p = k * q + 1 with q a large prime; p = k * q * q + 1
            4 => { let mut q = next_prime(c.rng.range(50_000, 100_000_000) as u64); let mut kk = 2; while !is_prime_ref(kk * q + 1) || kk * q + 1 >= 1 << 31 { kk += 2; if kk > 60 { kk = 2; q = next_prime(c.rng.range(50_000, 30_000_000) as u64) } } kk * q + 1 }
            5 => { let mut q = *c.rng.pick(&primes()[1..3000]) as u64; let mut kk = 2; while kk * q * q + 1 >= 1 << 31 || !is_prime_ref(kk * q * q + 1) { kk += 2; if kk > 100 { kk = 2; q = *c.rng.pick(&primes()[1..3000]) as u64 } } kk * q * q + 1 }
            _ => { let e = c.rng.range(10, 27); let mut kk = 1 + 2 * c.rng.below(1 << (30 - e)) as u64; while kk << e >= 1 << 31 || !is_prime_ref((kk << e) + 1) { kk = 1 + 2 * c.rng.below(1 << (30 - e)) as u64 ; if c.rng.chance(1, 200) { return } } (kk << e) + 1 }
        };
        if !is_prime_ref(p) { return }
        root_ok(c, p)
    }
    fn pow_small(c: &mut Case) {
        let m = c.idx as i32 + 1;
        op!(c, 5, [m], "pow_mod, all x and n small, modulus {m}");
        for x in -(m as i64) - 3..=2 * m as i64 + 3 {
            let mut w = 1 % m as i64;
            for n in 0..40i64 {
                check_eq!(c, k::pow_mod(x, n, m), w, "pow_mod({}, {}, {})", x, n, m);
                w = (w as i128 * x as i128).rem_euclid(m as i128) as i64;
            }
        }
        c.nontrivial = true;
    }
    fn i64_any(r: &mut Rng) -> i64 {
        match r.below(5) {
            0 => *r.pick(&[i64::MIN, i64::MIN + 1, -1, 0, 1, 2, i64::MAX, i64::MAX - 1, i32::MAX as i64, i32::MIN as i64, u32::MAX as i64, 1 << 32, 1 << 62]),
            1 => r.irange(-100, 100),
            2 => { let v = r.bits(63) as i64; if r.chance(1, 2) { -v } else { v } }
            _ => r.u64() as i64,
        }
    }
    fn pow_any(c: &mut Case) {
        for _ in 0..16 {
            let m = modulus(&mut c.rng).min(i32::MAX as u32) as i32;
            let x = if c.rng.chance(1, 3) { residue(&mut c.rng, m as u32) as i64 } else { i64_any(&mut c.rng) };
            let n = i64_any(&mut c.rng).max(0);
            op!(c, 6, [m, x, n], "pow_mod({x}, {n}, {m})");
            let b = (x as i128).rem_euclid(m as i128) as u128;
            check_eq!(c, k::pow_mod(x, n, m) as i128, powmod(b, n as u64, m as u128) as i128, "pow_mod({}, {}, {})", x, n, m);
        }
        c.nontrivial = true;
    }
    fn safe(c: &mut Case) {
        for _ in 0..32 {
            let x = i64_any(&mut c.rng);
            let m = match c.rng.below(3) { 0 => c.rng.range(1, 100) as i64, 1 => i64_any(&mut c.rng).max(1), _ => { let d = c.rng.range(0, 5) as i64; x.checked_abs().unwrap_or(i64::MAX).saturating_sub(2).saturating_add(d).max(1) } };
            op!(c, 7, [x, m], "safe_mod({x}, {m})");
            check_eq!(c, k::safe_mod(x, m) as i128, (x as i128).rem_euclid(m as i128), "safe_mod({}, {})", x, m);
        }
        c.nontrivial = true;
    }
    fn inv_one(c: &mut Case, a: i64, b: i64) {
        let (g, x) = k::inv_gcd(a, b);
        let (aa, bb) = (a as i128, b as i128);
        let want = { let (mut p, mut q) = (aa.rem_euclid(bb), bb); while p != 0 { (p, q) = (q % p, p) } q };
        check_eq!(c, g as i128, want, "inv_gcd({}, {}).0", a, b);
        check!(c, x >= 0 && (x as i128) < bb / want, "inv_gcd({a}, {b}).1 = {x} outside 0..{}", bb / want);
        check_eq!(c, (aa.rem_euclid(bb) * x as i128 - want).rem_euclid(bb), 0, "inv_gcd({}, {}): x*a - g modulo b, x = {}", a, b, x);
    }
    fn inv_small(c: &mut Case) {
        let b = c.idx as i64 + 1;
        op!(c, 8, [b], "inv_gcd(a, {b}), a in -{b}..3*{b}");
        for a in -b - 2..=3 * b { inv_one(c, a, b) }
        c.nontrivial = true;
    }
    fn inv_any(c: &mut Case) {
        for _ in 0..16 {
            let b = match c.rng.below(5) { 0 => i64::MAX - c.rng.below(50) as i64, 1 => modulus(&mut c.rng) as i64, 2 => 7_540_113_804_746_346_429, _ => i64_any(&mut c.rng).max(1) };
            let mut a = i64_any(&mut c.rng);
            match c.rng.below(6) {
                0 => a = 4_660_046_610_375_530_309,
                1 => { // common factor
                    let g = (c.rng.bits(31) as i64).max(1);
                    let b2 = b / g * g;
                    if b2 > 0 { let a2 = a / g * g; op!(c, 9, [a2, b2], "inv_gcd({a2}, {b2})"); inv_one(c, a2, b2) }
                    continue;
                }
                2 => a = b - c.rng.below(3) as i64,
                _ => {}
            }
            op!(c, 9, [a, b], "inv_gcd({a}, {b})");
            inv_one(c, a, b)
        }
        c.nontrivial = true;
    }
    fn barrett_small(c: &mut Case) {
        let m = c.idx as u32 + 1;
        op!(c, 10, [m], "reciprocal product, every pair modulo {m}");
        for a in 0..m { for b in 0..m { check_eq!(c, k::barrett_mul(m, a, b), (m, (a as u64 * b as u64 % m as u64) as u32), "barrett({}): {} * {}", m, a, b) } }
        c.nontrivial = true;
    }
    fn barrett_any(c: &mut Case) {
        let m = modulus(&mut c.rng);
        for _ in 0..32 {
            let (a, mut b) = (residue(&mut c.rng, m), residue(&mut c.rng, m));
            // products just above and below a multiple of m decide the correction step
            if a > 0 && c.rng.chance(1, 2) {
                let t = (c.rng.u64() % m as u64) * m as u64;
                b = (t.div_ceil(a as u64) % m as u64) as u32;
                if c.rng.chance(1, 3) { b = b.saturating_sub(1) }
            }
            op!(c, 11, [m, a, b], "{a} * {b} mod {m}");
            check_eq!(c, k::barrett_mul(m, a, b), (m, (a as u64 * b as u64 % m as u64) as u32), "barrett({}): {} * {}", m, a, b);
        }
        c.nontrivial = true;
    }
    pub fn main() {
        run(
            &[
                Workload { name: "prime_negative", quick: 12, thorough: 200, f: negatives },
                Workload { name: "prime_hard", quick: 120_000, thorough: 2_000_000, f: hard },
                Workload { name: "roots_small", quick: 48, thorough: 48, f: small_roots },
                Workload { name: "roots", quick: 12_000, thorough: 200_000, f: roots },
                Workload { name: "pow_small", quick: 120, thorough: 300, f: pow_small },
                Workload { name: "pow_any", quick: 40_000, thorough: 600_000, f: pow_any },
                Workload { name: "safe_mod", quick: 40_000, thorough: 400_000, f: safe },
                Workload { name: "inv_small", quick: 400, thorough: 2000, f: inv_small },
                Workload { name: "inv_any", quick: 40_000, thorough: 600_000, f: inv_any },
                Workload { name: "barrett_small", quick: 200, thorough: 500, f: barrett_small },
                Workload { name: "barrett_any", quick: 60_000, thorough: 1_500_000, f: barrett_any },
                Workload { name: "prime_all", quick: BLOCKS / 2, thorough: BLOCKS, f: sieve_all },
            ],
            &["p-1 with many prime factors", "p-1 with a large prime factor", "p-1 with its largest prime squared"],
        )
    }
}
