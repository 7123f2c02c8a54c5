//! C29 modular integers as values: text, parsing, equality, hashing, default.
use rust_cp::misc::modint::*;
use std::collections::{hash_map::DefaultHasher, HashMap, HashSet};
use std::hash::{Hash, Hasher};
use vmon::modmac::{modulus, residue, DynA, N_STATIC};
use vmon::*;

fn hash(x: &impl Hash) -> u64 { let mut h = DefaultHasher::new(); x.hash(&mut h); h.finish() }
fn i64_any(r: &mut Rng, m: u32) -> i64 {
    match r.below(7) {
        0 => *r.pick(&[i64::MIN, i64::MIN + 1, -1, 0, 1, i64::MAX, i64::MAX - 1, i32::MIN as i64, u32::MAX as i64, 1 << 32, -(1 << 32)]),
        1 => r.irange(-50, 50),
        2 => { let k = r.irange(-3, 3); k * m as i64 + r.irange(-2, 2) }
        3 => { let q = i64::MAX / m as i64; let k = r.irange(-q, q); (k * m as i64).saturating_add(r.irange(-1, 1)) }
        4 => { let v = r.bits(63) as i64; if r.chance(1, 2) { -v } else { v } }
        _ => r.u64() as i64,
    }
}
fn all_text<T: ModIntBase>(c: &mut Case, x: T, v: u32) {
    let w = c.rng.below(16);
    let p = [
        (format!("{x}"), format!("{v}"), "{}"),
        (format!("{x:?}"), format!("{v}"), "{:?}"),
        (x.to_string(), v.to_string(), "to_string"),
        (format!("{x:w$}"), format!("{v:w$}"), "{:w}"),
        (format!("{x:<w$}|"), format!("{v:<w$}|"), "{:<w}"),
        (format!("{x:^w$}|"), format!("{v:^w$}|"), "{:^w}"),
        (format!("{x:>w$}|"), format!("{v:>w$}|"), "{:>w}"),
        (format!("{x:*^w$}"), format!("{v:*^w$}"), "{:*^w}"),
        (format!("{x:0w$}"), format!("{v:0w$}"), "{:0w}"),
        (format!("{x:+}"), format!("{v:+}"), "{:+}"),
        (format!("{x:#}"), format!("{v:#}"), "{:#}"),
        (format!("{x:#?}"), format!("{v:#?}"), "{:#?}"),
        (format!("{x:#w$}"), format!("{v:#w$}"), "{:#w}"),
        (format!("{x:w$?}"), format!("{v:w$?}"), "{:w?}"),
        (format!("{x:-<w$?}"), format!("{v:-<w$?}"), "{:-<w?}"),
        (format!("{x:07?}"), format!("{v:07?}"), "{:07?}"),
        (format!("{:?}", vec![x, x]), format!("{:?}", vec![v, v]), "{:?} of a vector"),
        (format!("{:?}", Some((x, 'a'))), format!("{:?}", Some((v, 'a'))), "{:?} inside Some"),
        (format!("{:05}", &&x), format!("{:05}", &&v), "{:05} through references"),
    ];
    for (got, want, how) in p { check_eq!(c, got, want, "{} of the residue {}", how, v) }
}
fn values<T: ModIntBase>(c: &mut Case) {
    let m = T::modulus();
    op!(c, 1, [m], "values modulo {m}");
    check_eq!(c, T::default().val(), 0, "default modulo {}", m);
    check!(c, T::default() == T::new(0i32) && T::default() == T::new(m), "default is the zero modulo {m}");
    let mut seen: HashMap<T, u32> = HashMap::new();
    let mut set: HashSet<u32> = HashSet::new();
    for _ in 0..12 {
        // parse
        let s = i64_any(&mut c.rng, m);
        let want = (s as i128).rem_euclid(m as i128) as u32;
        let text = match c.rng.below(6) { 0 if s >= 0 => format!("+{s}"), 1 if s >= 0 => format!("000{s}"), 2 if s < 0 && s != i64::MIN => format!("-00{}", -s), _ => s.to_string() };
        op!(c, 2, [s, want], "parse {text:?}");
        let Ok(x) = text.parse::<T>() else { violation(format!("parsing {text:?} modulo {m} failed")) };
        check_eq!(c, x.val(), want, "parse {:?} modulo {}", text, m);
        if s < 0 { c.hit("negative text") }
        if s.unsigned_abs() >= m as u64 { c.hit("text needs reduction") }
        // print and read back
        let Ok(y) = x.to_string().parse::<T>() else { violation(format!("{x} does not parse")) };
        check!(c, y == x && y.val() == want, "print and parse of {want} modulo {m} gives {y}");
        if c.rng.chance(1, 4) { all_text(c, x, want) } else { check_eq!(c, (format!("{x}"), format!("{x:?}")), (format!("{want}"), format!("{want}")), "text modulo {}", m) }
        // equality and hash against values with the same / a neighbouring / any residue, made in other ways
        let raw = T::raw(want);
        let sum = T::new(s) + T::new(0u8);
        let big = T::new(want as i128 + (c.rng.bits(60) as i128) * m as i128);
        for z in [raw, sum, big, x * T::new(1u8), x - T::raw(0)] {
            check!(c, z == x && !(z != x), "equal residues {} and {} modulo {m} compare unequal", z.val(), x.val());
            check_eq!(c, hash(&z), hash(&x), "hash of the residue {} modulo {}", want, m);
        }
        let other = match c.rng.below(3) { 0 => (want as u64 + 1) % m as u64, 1 => (want as u64 + m as u64 - 1) % m as u64, _ => residue(&mut c.rng, m) as u64 } as u32;
        let o = T::raw(other);
        check_eq!(c, (o == x, o != x, x == o), (other == want, other != want, other == want), "comparison of {} and {} modulo {}", other, want, m);
        if other != want { c.hit("different residues") }
        let cl = x.clone();
        check!(c, cl == x && cl.val() == want, "clone of {want}");
        set.insert(want);
        set.insert(other);
        seen.insert(x, want);
        seen.insert(o, other);
    }
    check_eq!(c, seen.len(), set.len(), "distinct keys modulo {}", m);
    for (k, v) in &seen { check_eq!(c, k.val(), *v, "key of the map modulo {}", m) }
    c.nontrivial = m > 1;
}
fn stat<M: Modulus>(c: &mut Case) { values::<StaticModInt<M>>(c) }
fn statics(c: &mut Case) { let k = c.idx % N_STATIC; vmon::with_static!(k, stat, c) }
fn dynamic(c: &mut Case) {
    let m = modulus(&mut c.rng);
    DynamicModInt::<DynA>::set_modulus(m);
    values::<DynamicModInt<DynA>>(c)
}
fn plain(c: &mut Case) {
    let m = modulus(&mut c.rng);
    ModInt::set_modulus(m);
    values::<ModInt>(c)
}
/// every pair of residues of a small modulus, every text around it
fn small(c: &mut Case) {
    type Z = DynamicModInt<DynA>;
    let m = c.idx as u32 + 1;
    Z::set_modulus(m);
    op!(c, 3, [m], "every residue modulo {m}");
    let hs: Vec<u64> = (0..m).map(|a| hash(&Z::raw(a))).collect();
    for a in 0..m {
        for b in 0..m { check_eq!(c, Z::raw(a) == Z::raw(b), a == b, "{} == {} modulo {}", a, b, m) }
        for k in -3i64..=3 { let x = Z::new(a as i64 + k * m as i64); check_eq!(c, (hash(&x), x), (hs[a as usize], Z::raw(a)), "hash and value of {} + {} * {}", a, k, m) }
    }
    for s in -3 * m as i64..=3 * m as i64 { check_eq!(c, s.to_string().parse::<Z>().map(|z| z.val()), Ok(s.rem_euclid(m as i64) as u32), "parse {} modulo {}", s, m) }
    for a in 0..m { all_text(c, Z::raw(a), a) }
    c.nontrivial = m > 1;
}
fn main() {
    run(
        &[
            Workload { name: "small", quick: 60, thorough: 200, f: small },
            Workload { name: "static", quick: 48_000, thorough: 900_000, f: statics },
            Workload { name: "dynamic", quick: 80_000, thorough: 1_800_000, f: dynamic },
            Workload { name: "default_id", quick: 12_000, thorough: 180_000, f: plain },
        ],
        &["negative text", "text needs reduction", "different residues"],
    )
}
