//! C19 prefix function and Z function vs. definitions (small) and hashing / construction (large).
use rust_cp::string::kmp::kmp;
use rust_cp::string::z_algorithm::z_function;
use std::fmt::Debug;
use vmon::*;

fn borders<T: PartialEq>(s: &[T]) -> Vec<usize> {
    (0..s.len()).map(|i| (1..=i).rev().find(|&k| s[..k] == s[i + 1 - k..=i]).unwrap_or(0)).collect()
}
fn zs<T: PartialEq>(s: &[T]) -> Vec<usize> {
    (0..s.len()).map(|i| if i == 0 { 0 } else { (0..s.len() - i).take_while(|&k| s[k] == s[i + k]).count() }).collect()
}
fn small<T: PartialEq + Debug>(c: &mut Case, s: &[T]) {
    check_eq!(c, kmp(s), borders(s), "prefix function of {:?}", s);
    check_eq!(c, z_function(s), zs(s), "Z function of {:?}", s);
    if s.is_empty() { c.hit("empty") }
    c.nontrivial |= s.len() > 1;
}
/// all sequences over k letters up to a length, 64 per case, odometer order
fn exhaustive(c: &mut Case) {
    let mut idx = c.idx;
    let (mut k, mut len);
    // blocks: (alphabet, length)
    let blocks: &[(u64, u32)] = &[(2, 0), (2, 1), (2, 2), (2, 3), (2, 4), (2, 5), (2, 6), (2, 7), (2, 8), (2, 9), (2, 10), (2, 11), (2, 12), (3, 5), (3, 6), (3, 7), (3, 8), (4, 5), (4, 6), (2, 13), (2, 14), (2, 15), (2, 16), (3, 9), (3, 10), (4, 7), (4, 8)];
    let mut b = 0;
    loop {
        (k, len) = blocks[b];
        let n = k.pow(len).div_ceil(64);
        if idx < n { break }
        idx -= n;
        b += 1;
    }
    op!(c, 1, [k, len, idx], "strings of length {len} over {k} letters, block {idx}");
    for w in idx * 64..((idx + 1) * 64).min(k.pow(len)) {
        let mut x = w;
        let s: Vec<u8> = (0..len).map(|_| { let d = x % k; x /= k; d as u8 }).collect();
        small(c, &s);
    }
}
fn ex_count(blocks: usize) -> u64 {
    let all: &[(u64, u32)] = &[(2, 0), (2, 1), (2, 2), (2, 3), (2, 4), (2, 5), (2, 6), (2, 7), (2, 8), (2, 9), (2, 10), (2, 11), (2, 12), (3, 5), (3, 6), (3, 7), (3, 8), (4, 5), (4, 6), (2, 13), (2, 14), (2, 15), (2, 16), (3, 9), (3, 10), (4, 7), (4, 8)];
    all[..blocks].iter().map(|&(k, l)| k.pow(l).div_ceil(64)).sum()
}
/// structured sequences: periodic, Fibonacci, runs, with a few edits
fn structured(r: &mut Rng, max: usize) -> Vec<u32> {
    let n = r.below(max + 1);
    let k = r.range(1, 4) as u64;
    let mut s: Vec<u32> = match r.below(9) {
        0 => { let p = if r.chance(1, 2) { r.range(1, 8) } else { r.range(1, n.max(2) / 2 + 1) }; let w: Vec<u32> = (0..p).map(|_| (r.u64() % k) as u32).collect(); (0..n).map(|i| w[i % p]).collect() }
        1 => { let (mut a, mut b) = (vec![0u32], vec![0u32, 1]); while b.len() < n { let t = [b.clone(), a].concat(); a = b; b = t; } b.truncate(n); b }
        2 => (0..n).map(|i| (i as u32).count_ones() & 1).collect(), // Thue-Morse
        3 => vec![7; n],
        // words that fail far: doubled around ever new letters, and built from their own prefixes
        6 => { let mut v = vec![0u32]; let m = r.range(1, 4) as u32; while v.len() < n { let x = (v.len() + 1).trailing_zeros() % (m * 6); let t = v.clone(); v.push(x); v.extend(t); } v.truncate(n); v }
        7 => { let mut v = vec![0u32]; while v.len() < n { let l = r.range(1, v.len()); let t = v[..l].to_vec(); let rep = if r.chance(1, 4) { r.range(1, 30) } else { 1 }; for _ in 0..rep { v.extend(&t) } v.push((r.u64() % k) as u32); } v.truncate(n); v }
        8 => { let mut v = vec![]; let a = r.range(1, 1 + n.min(40)); while v.len() < n { let run = if r.chance(2, 3) { a } else { r.range(1, a + 1) }; v.extend(vec![0u32; run]); v.push(1 + (r.u64() % k) as u32) } v.truncate(n); v }
        4 => { let m = n / 2; let w: Vec<u32> = (0..m).map(|_| (r.u64() % k) as u32).collect(); let mut v = w.clone(); v.extend(w); v.truncate(n); v }
        _ => (0..n).map(|_| (r.u64() % k) as u32).collect(),
    };
    let n = s.len();
    if n > 0 && r.chance(1, 2) { for _ in 0..r.below(3) * (1 + n / 40) { let p = match r.below(3) { 0 => n - 1, 1 => n / 2, _ => r.below(n) }; s[p] = r.below(5) as u32 } }
    s
}
fn medium(c: &mut Case) {
    let s = structured(&mut c.rng, 60);
    op!(c, 2, [s.len()], "{:?}", s);
    c.h_slice(&s);
    small(c, &s);
}
/// element types with only equality
#[derive(Debug, PartialEq)]
enum Tok { A, B(String), C { x: f64 } }
fn types(c: &mut Case) {
    let s = structured(&mut c.rng, 30);
    op!(c, 3, [s.len()], "{:?} as strings, floats, options, enums, chars, i128", s);
    c.h_slice(&s);
    small(c, &s.iter().map(|x| format!("w{x}")).collect::<Vec<String>>());
    small(c, &s.iter().map(|x| if *x == 0 { -0.0 } else { *x as f64 / 2.0 }).collect::<Vec<f64>>());
    small(c, &s.iter().map(|x| if *x == 0 { None } else { Some(vec![*x]) }).collect::<Vec<Option<Vec<u32>>>>());
    small(c, &s.iter().map(|x| match x { 0 => Tok::A, 1 => Tok::B("b".into()), y => Tok::C { x: *y as f64 } }).collect::<Vec<_>>());
    small(c, &s.iter().map(|x| char::from_u32('α' as u32 + x).unwrap()).collect::<Vec<char>>());
    small(c, &s.iter().map(|x| (*x as i128) << 100).collect::<Vec<i128>>());
    small(c, &s.iter().map(|_| ()).collect::<Vec<()>>());
    // case-insensitive equality: a coarser equivalence than identity
    #[derive(Debug)]
    struct Ci(char);
    impl PartialEq for Ci { fn eq(&self, o: &Ci) -> bool { self.0.to_ascii_lowercase() == o.0.to_ascii_lowercase() } }
    let v: Vec<Ci> = s.iter().map(|x| { let ch = (b'a' + *x as u8) as char; Ci(if c.rng.chance(1, 2) { ch.to_ascii_uppercase() } else { ch }) }).collect();
    small(c, &v);
}
/// long sequences: Z by binary search over a polynomial hash; borders derived from hashes
fn large(c: &mut Case) {
    let max = if c.exact > 0 { c.exact } else if c.giant { gen::giant_n(c) } else if c.idx % 20 == 0 { 200_000 } else { 20_000 };
    let mut s = structured(&mut c.rng, max);
    // exactly so long, the last few letters random sometimes
    if c.exact > 0 {
        s = structured(&mut c.rng, 2 * c.exact);
        while s.len() < c.exact { s.extend(structured(&mut c.rng, 2 * c.exact)) }
        s.truncate(c.exact);
    }
    while c.giant && s.len() < max - max / 50 { s = structured(&mut c.rng, max) }
    let n = s.len();
    op!(c, 4, [n], "n={n}");
    c.h_slice(&s);
    let p = kmp(&s);
    let z = z_function(&s);
    check_eq!(c, (p.len(), z.len()), (n, n), "lengths");
    let mut h = vec![0u64; n + 1];
    let mut pw = vec![1u64; n + 1];
    for i in 0..n { h[i + 1] = modp::add(modp::mul(h[i], models::B), s[i] as u64 + 1); pw[i + 1] = modp::mul(pw[i], models::B); }
    let sub = |a: usize, b: usize| modp::add(h[b], modp::P - modp::mul(h[a], pw[b - a]));
    let mut wp = vec![0usize; n];
    for i in 1..n {
        let (mut lo, mut hi) = (0, n - i);
        while lo < hi { let m = (lo + hi + 1) / 2; if sub(0, m) == sub(i, i + m) { lo = m } else { hi = m - 1 } }
        check_eq!(c, z[i], lo, "z[{}] of a length-{} sequence", i, n);
        // longest border ending at j is the suffix start i smallest with i + z[i] > j
        if lo > 0 { let e = i + lo - 1; if wp[e] == 0 { wp[e] = lo } }
    }
    for j in (1..n.saturating_sub(1)).rev() { if wp[j + 1] > 0 { wp[j] = wp[j].max(wp[j + 1] - 1) } }
    check!(c, p == wp, "prefix function of a length-{} sequence differs at {:?}", n, (0..n).find(|&i| p[i] != wp[i]));
    c.max("longest sequence", n as u64);
    c.nontrivial = n > 1;
}
/// the same around and above 2^20 elements
fn large_giant(c: &mut Case) {
    c.giant = true;
    large(c)
}
/// one case for every size
fn sizes(c: &mut Case) {
    c.exact = c.idx as usize + 1;
    large(c)
}
fn main() {
    let _ = ex_count;
    run(
        &[
            Workload { name: "exhaustive", quick: 1 + 1 + 1 + 1 + 1 + 1 + 1 + 2 + 4 + 8 + 16 + 32 + 64 + 4 + 12 + 35 + 103 + 16 + 64, thorough: 1 + 1 + 1 + 1 + 1 + 1 + 1 + 2 + 4 + 8 + 16 + 32 + 64 + 4 + 12 + 35 + 103 + 16 + 64 + 128 + 256 + 512 + 1024 + 308 + 923 + 256 + 1024, f: exhaustive },
            Workload { name: "structured", quick: 300_000, thorough: 8_000_000, f: medium },
            Workload { name: "types", quick: 50_000, thorough: 800_000, f: types },
            Workload { name: "large", quick: 360, thorough: 9000, f: large },
            Workload { name: "sizes", quick: 4200, thorough: 16800, f: sizes },
            Workload { name: "giant", quick: 2, thorough: 24, f: large_giant },
        ],
        &["empty"],
    )
}
