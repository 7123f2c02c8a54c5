//! C18 linear congruence systems vs. brute force, a hidden solution, and certificates.
use rust_cp::math::number_theory::ex_crt;
use vmon::*;

fn gcd(a: i128, b: i128) -> i128 { if b == 0 { a.abs() } else { gcd(b, a % b) } }
fn inv(a: i128, m: i128) -> i128 {
    let (mut r0, mut r1, mut t0, mut t1) = (m, a.rem_euclid(m), 0i128, 1i128);
    while r1 != 0 { let q = r0 / r1; (r0, r1) = (r1, r0 - q * r1); (t0, t1) = (t1, t0 - q * t1); }
    t0.rem_euclid(m)
}
/// Solution set of one congruence: x = r (mod q), or none
fn single(a: i128, b: i128, m: i128) -> Option<(i128, i128)> {
    let (a, b) = (a.rem_euclid(m), b.rem_euclid(m));
    let g = gcd(a, m);
    if b % g != 0 { return None }
    let q = m / g;
    Some(((b / g) * inv(a / g, q) % q, q))
}
/// pairwise-compatibility oracle (different route from folding): a system of x = r_i (mod q_i) is
/// solvable iff every pair is; the period is the lcm of the q_i
fn solvable(s: &[(i128, i128)]) -> bool {
    let mut s = s.to_vec();
    s.sort();
    s.dedup();
    s.iter().enumerate().all(|(i, x)| s[..i].iter().all(|y| (x.0 - y.0) % gcd(x.1, y.1) == 0))
}
fn judge(c: &mut Case, a: &Vec<i64>, b: &Vec<i64>, m: &Vec<i64>) {
    let n = a.len();
    op!(c, 1, [n], "a={a:?} b={b:?} m={m:?}");
    c.h_slice(a);
    c.h_slice(b);
    c.h_slice(m);
    let singles: Vec<Option<(i128, i128)>> = (0..n).map(|i| single(a[i] as i128, b[i] as i128, m[i] as i128)).collect();
    let each: Option<Vec<(i128, i128)>> = singles.iter().copied().collect();
    // period of the full system and of every prefix must fit 64 bits (prefix periods divide it)
    let mut per = 1i128;
    for i in 0..n {
        let q = m[i] as i128 / gcd((a[i] as i128).rem_euclid(m[i] as i128), m[i] as i128);
        per = per / gcd(per, q) * q;
        if per > i64::MAX as i128 { c.hit("skipped: period too wide"); return }
    }
    let got = ex_crt(a, b, m);
    let feasible = each.as_ref().map_or(false, |e| solvable(e));
    match got {
        None => { check!(c, !feasible, "reported unsolvable, but it is solvable"); c.hit("no solution"); }
        Some((x, l)) => {
            check!(c, feasible, "reported ({}, {}), but the system has no solution", x, l);
            check_eq!(c, l as i128, per, "period");
            for i in 0..n {
                let r = (a[i] as i128).rem_euclid(m[i] as i128) * (x as i128).rem_euclid(m[i] as i128) % m[i] as i128;
                check_eq!(c, r, (b[i] as i128).rem_euclid(m[i] as i128), "{} does not satisfy {}*x = {} (mod {})", x, a[i], b[i], m[i]);
            }
            check!(c, 0 <= x && x < l, "solution {} is not the least non-negative one (period {})", x, l);
            c.hit("solved");
        }
    }
    c.nontrivial = n > 1 || m.iter().any(|x| *x > 1);
    if n == 0 { c.hit("empty system") }
}
fn small(c: &mut Case) {
    let n = c.rng.below(5);
    let lim = *c.rng.pick(&[2i64, 4, 12, 30]);
    let m: Vec<i64> = (0..n).map(|_| c.rng.irange(1, lim)).collect();
    let hidden = c.rng.irange(0, 5000);
    let solv = c.rng.chance(3, 4);
    let a: Vec<i64> = (0..n).map(|i| match c.rng.below(4) { 0 => 1, 1 => c.rng.irange(-3 * m[i], 3 * m[i]), _ => c.rng.irange(0, m[i]) }).collect();
    let b: Vec<i64> = (0..n).map(|i| if solv { a[i] * hidden % m[i] + c.rng.irange(-2, 2) * m[i] } else { c.rng.irange(-2 * m[i], 2 * m[i]) }).collect();
    judge(c, &a, &b, &m);
    // brute force over a full period
    let l = m.iter().fold(1i64, |l, &x| l / gcd(l as i128, x as i128) as i64 * x);
    let want = (0..l).find(|x| (0..n).all(|i| (a[i] * x - b[i]) % m[i] == 0));
    let got = ex_crt(&a, &b, &m);
    check_eq!(c, got.map(|g| g.0), want, "brute force over 0..{}", l);
    if let Some((x, p)) = got {
        let second = (x + 1..=x + l).find(|x| (0..n).all(|i| (a[i] * x - b[i]) % m[i] == 0)).unwrap();
        check_eq!(c, p, second - x, "period by brute force");
    }
}
/// one or two congruences, all coefficients, right sides and moduli up to 6 / all pairs of moduli
fn exhaustive(c: &mut Case) {
    let (m1, m2) = (c.idx as i64 / 12 % 12 + 1, c.idx as i64 % 12 + 1);
    op!(c, 2, [m1, m2], "all systems with moduli {m1},{m2} (coefficients 0..m, right sides -1..m)");
    let mut k = 0u64;
    for a1 in 0..m1 { for b1 in -1..m1 { for a2 in [0, 1, m2 - 1, m2 / 2, -1] { for b2 in 0..m2 {
        let (a, b, m) = (vec![a1, a2], vec![b1, b2], vec![m1, m2]);
        let want = (0..m1 * m2).find(|x| (a1 * x - b1) % m1 == 0 && (a2 * x - b2) % m2 == 0);
        let got = ex_crt(&a, &b, &m);
        check_eq!(c, got.map(|g| g.0), want, "a={:?} b={:?} m={:?}", a, b, m);
        if let Some((x, l)) = got {
            let s = (x + 1..=x + m1 * m2).find(|x| (a1 * x - b1) % m1 == 0 && (a2 * x - b2) % m2 == 0).unwrap();
            check_eq!(c, l, s - x, "period of a={:?} b={:?} m={:?}", a, b, m);
        }
        k += 1;
    }}}}
    c.ops += k;
    c.nontrivial = true;
}
/// moduli with shared factors whose lcm approaches 2^63; coefficients of full 64-bit range
fn large(c: &mut Case) {
    let r = &mut c.rng;
    let n = r.range(1, 9);
    let primes: [i64; 14] = [2, 2, 2, 3, 3, 5, 7, 11, 101, 10_007, 65_537, 1_000_003, 998_244_353, 2_147_483_647];
    let budget = if r.chance(1, 2) { i64::MAX as i128 } else { 1i128 << r.range(10, 62) };
    let mut m = vec![];
    let mut l = 1i128;
    for _ in 0..n {
        let mut x = if r.chance(1, 6) { r.bits(62).max(1) as i64 } else { 1 };
        if x == 1 { for _ in 0..r.range(0, 7) { let p = *r.pick(&primes); if (x as i128 * p as i128) < budget { x *= p } } }
        if r.chance(1, 5) { if let Some(&y) = m.last() { x = y } }
        if l / gcd(l, x as i128) * x as i128 > budget { x = m.first().copied().unwrap_or(1).min(x) }
        if l / gcd(l, x as i128) * x as i128 > i64::MAX as i128 { x = 1 }
        l = l / gcd(l, x as i128) * x as i128;
        m.push(x);
    }
    let hidden = (r.u128() % l as u128) as i128;
    let a: Vec<i64> = m.iter().map(|&q| match r.below(6) { 0 => 1, 1 => r.u64() as i64, 2 => i64::MIN, 3 => i64::MAX, 4 => (r.u64() % q as u64) as i64, _ => -((r.u64() % q as u64) as i64) }).collect();
    let wrong = r.chance(1, 5);
    let b: Vec<i64> = (0..n).map(|i| {
        let q = m[i] as i128;
        let mut v = (a[i] as i128).rem_euclid(q) * (hidden % q) % q;
        if wrong && r.chance(1, 3) { v = (v + 1 + (r.u64() % 50) as i128) % q }
        match r.below(4) { 0 if v - q >= i64::MIN as i128 => (v - q) as i64, 1 => { let t = (i64::MAX as i128 - v) / q; (v + t * q) as i64 } 2 => { let t = (v - i64::MIN as i128) / q; (v - t * q) as i64 } _ => v as i64 }
    }).collect();
    if l > 1 << 60 { c.hit("period above 2^60") }
    judge(c, &a, &b, &m);
}
/// thousands of congruences whose moduli divide one number
fn many(c: &mut Case) {
    let n = match c.idx % 4 { _ if c.exact > 0 => c.exact, 0 => gen::huge_n(&mut c.rng), 1 => c.rng.range(66_000, 70_000), _ => c.rng.range(200, 10_000) };
    let r = &mut c.rng;
    let primes: [i64; 10] = [2, 2, 3, 3, 5, 7, 11, 13, 101, 65_537];
    let take = r.range(1, 10);
    let pool: Vec<i64> = (0..r.range(1, 200)).map(|_| primes[..take].iter().map(|&p| if r.chance(1, 2) { p } else { 1 }).product()).collect();
    let l = primes[..take].iter().map(|&p| p as i128).product::<i128>();
    let hidden = (r.u128() % l as u128) as i128;
    let m: Vec<i64> = (0..n).map(|_| *r.pick(&pool)).collect();
    let a: Vec<i64> = m.iter().map(|&q| if r.chance(1, 2) { 1 } else { (r.u64() % q as u64) as i64 }).collect();
    let wrong = if r.chance(1, 3) { r.below(n) } else { n };
    let b: Vec<i64> = (0..n).map(|i| { let q = m[i] as i128; ((a[i] as i128 * (hidden % q) + (i == wrong) as i128) % q) as i64 }).collect();
    c.max("most congruences", n as u64);
    judge(c, &a, &b, &m);
}
/// one case for every number of congruences
fn sizes(c: &mut Case) {
    c.exact = c.idx as usize + 1;
    many(c)
}
fn main() {
    run(
        &[
            Workload { name: "exhaustive", quick: 144, thorough: 144, f: exhaustive },
            Workload { name: "small", quick: 300_000, thorough: 4_800_000, f: small },
            Workload { name: "large", quick: 360000, thorough: 9000000, f: large },
            Workload { name: "many", quick: 24, thorough: 600, f: many },
            Workload { name: "sizes", quick: 1100, thorough: 9000, f: sizes },
        ],
        &["no solution", "solved", "empty system", "period above 2^60"],
    )
}
