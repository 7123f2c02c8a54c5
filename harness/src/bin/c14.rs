//! C14 inverse and division vs. exact arithmetic; a residue with no inverse must panic.
use rust_cp::misc::modint::{DynamicModInt, Id, ModIntBase, Modulus, StaticModInt};
use vmon::modmac::*;
use vmon::*;

macro_rules! one {
    ($name:ident, $P:ident : $B:ident, $Z:ty) => {
        fn $name<$P: $B>(c: &mut Case, a: u32, b: u32) {
            let m = <$Z>::modulus();
            let (x, y) = (<$Z>::raw(a), <$Z>::raw(b));
            let unit = gcd(a as u64, m as u64) == 1;
            op!(c, 1, [m, a, b], "m={m}: inverse of {a}, {b} / {a}");
            if unit {
                let i = x.inv();
                check!(c, i.val() < m, "inverse of {} mod {} not reduced: {}", a, m, i.val());
                check_eq!(c, mulmod(i.val() as u128, a as u128, m as u128) as u32, 1 % m, "inv({})*{} mod {}; inv = {}", a, a, m, i.val());
                let want = mulmod(b as u128, i.val() as u128, m as u128) as u32;
                check_eq!(c, <$Z as ModIntBase>::inv(x).val(), i.val(), "ModIntBase::inv({}) mod {}", a, m);
                check_eq!(c, [(y / x).val(), (y / &x).val(), (&y / x).val(), (&y / &x).val()], [want; 4], "{} / {} mod {}", b, a, m);
                let (mut z, mut w) = (y, y);
                z /= x;
                w /= &x;
                check_eq!(c, (z.val(), w.val()), (want, want), "{} /= {} mod {}", b, a, m);
                check_eq!(c, ((y / a).val(), (y / a as u64).val(), (y / (a as i64 - m as i64)).val(), (y / (a as i128 + m as i128)).val()), (want, want, want, want), "{} / integer {} mod {}", b, a, m);
                z = y;
                z /= a as usize;
                check_eq!(c, z.val(), want, "{} /= integer {} mod {}", b, a, m);
                c.hit("unit");
            } else {
                let r = c.rng.below(8);
                let fs: [(&str, &dyn Fn() -> u32); 8] = [
                    ("inv", &|| x.inv().val()), ("trait inv", &|| <$Z as ModIntBase>::inv(x).val()), ("/", &|| (y / x).val()), ("/ &", &|| (y / &x).val()),
                    ("& / &", &|| (&y / &x).val()), ("/=", &|| { let mut z = y; z /= x; z.val() }), ("/ integer", &|| (y / a).val()), ("/= integer", &|| { let mut z = y; z /= a as i64; z.val() }),
                ];
                for k in [0, r] {
                    let (name, f) = fs[k];
                    if let Err(v) = expect_panic(f) { violation(format!("{name}: {a} has no inverse mod {m}, but a value was returned: {v}")) }
                    c.events += 1;
                }
                c.hit("non-unit");
            }
            c.nontrivial |= m > 1;
        }
    };
}
one!(s_one, M: Modulus, StaticModInt<M>);
one!(d_one, I: Id, DynamicModInt<I>);

fn s_case<M: Modulus>(c: &mut Case) {
    let m = M::VALUE;
    if m <= 257 && c.idx < N_STATIC {
        for a in 0..m { let b = residue(&mut c.rng, m); s_one::<M>(c, a, b) }
        return;
    }
    for _ in 0..8 {
        let (a, b) = (residue(&mut c.rng, m), residue(&mut c.rng, m));
        s_one::<M>(c, a, b);
    }
}
fn statics(c: &mut Case) { let k = c.idx; with_static!(k, s_case, c) }
fn dyns(c: &mut Case) {
    let m = modulus(&mut c.rng);
    op!(c, 9, [m], "set_modulus({m})");
    DynamicModInt::<DynA>::set_modulus(m);
    for i in 0..8 {
        let mut a = residue(&mut c.rng, m);
        if i == 0 && m > 3 { // a multiple of a prime factor, when there is a small one
            for p in [2u32, 3, 5, 7, 11] { if m % p == 0 { a = a / p * p } }
        }
        let b = residue(&mut c.rng, m);
        d_one::<DynA>(c, a, b);
    }
    if m == 1 { c.hit("modulus 1") }
    if m == 1 << 31 { c.hit("modulus 2^31") }
}
/// every residue of every small modulus, against brute force
fn dyn_small(c: &mut Case) {
    let m = c.idx as u32 + 1;
    DynamicModInt::<DynA>::set_modulus(m);
    for a in 0..m {
        let b = residue(&mut c.rng, m);
        d_one::<DynA>(c, a, b);
        if (0..m).any(|x| a as u64 * x as u64 % m as u64 == (1 % m) as u64) != (gcd(a as u64, m as u64) == 1) { panic!("oracle") }
    }
}
/// worst cases of the Euclidean loop: consecutive Fibonacci numbers and their multiples
fn fib(c: &mut Case) {
    let (mut a, mut b) = (1u64, 2u64);
    while b <= 1 << 31 {
        DynamicModInt::<DynA>::set_modulus(b as u32);
        d_one::<DynA>(c, a as u32, 1);
        d_one::<DynA>(c, (b - a) as u32, (b - 1) as u32);
        (a, b) = (b, a + b);
    }
}
fn main() {
    run(
        &[
            Workload { name: "fibonacci", quick: 1, thorough: 1, f: fib },
            Workload { name: "dyn_small", quick: 300, thorough: 1500, f: dyn_small },
            Workload { name: "static", quick: 48_000, thorough: 900_000, f: statics },
            Workload { name: "dynamic", quick: 240_000, thorough: 4_500_000, f: dyns },
        ],
        &["unit", "non-unit", "modulus 1", "modulus 2^31"],
    )
}
