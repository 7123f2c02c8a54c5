//! Moduli and ids for the modular-integer monitors.
use crate::Rng;
pub use rust_cp::misc::modint::{Barrett, ButterflyCache, DynamicModInt, Id, ModInt1000000007, ModInt998244353, ModIntBase, Modulus, RemEuclidU32, StaticModInt};

#[macro_export]
macro_rules! moduli {
    ($($name:ident($value:expr, $is_prime:expr)),* $(,)?) => {
        $(
            #[derive(Copy, Clone, Eq, PartialEq)]
            pub enum $name {}
            impl $crate::modmac::Modulus for $name {
                const VALUE: u32 = $value;
                const HINT_VALUE_IS_PRIME: bool = $is_prime;
                fn butterfly_cache() -> &'static ::std::thread::LocalKey<::std::cell::RefCell<::std::option::Option<$crate::modmac::ButterflyCache<Self>>>> {
                    thread_local! { static C: ::std::cell::RefCell<::std::option::Option<$crate::modmac::ButterflyCache<$name>>> = ::std::default::Default::default(); }
                    &C
                }
            }
        )*
        /// calls the generic function `$f::<Modulus>` for the k-th modulus
        #[macro_export]
        macro_rules! with_static {
            ($k:expr, $f:ident, $c:expr) => {{
                let fs: &[fn(&mut $crate::Case)] = &[$($f::<$crate::modmac::$name>),*, $f::<rust_cp::misc::modint::Mod1000000007>, $f::<rust_cp::misc::modint::Mod998244353>];
                fs[$k as usize % fs.len()]($c)
            }};
        }
        pub const N_STATIC: u64 = [$(stringify!($name)),*].len() as u64 + 2;
    };
}
moduli! {
    M1(1, false), M2(2, true), M2c(2, false), M3(3, true), M4(4, false), M5(5, true), M6(6, false), M7(7, true), M8(8, false), M9(9, false), M10(10, false),
    M12(12, false), M97(97, true), M97c(97, false), M100(100, false), M101(101, true), M127(127, true), M128(128, false), M255(255, false), M256(256, false), M257(257, true),
    M65535(65535, false), M65536(65536, false), M65537(65537, true), M65539(65539, true), M1e6(1_000_000, false), M1e9(1_000_000_000, false), M1e9p9(1_000_000_009, true),
    MP30(1 << 30, false), MP30a((1 << 30) + 1, false), MQ(1_073_741_789, true), M31m1(2_147_483_647, true), M31m1c(2_147_483_647, false), M31m2(2_147_483_646, false), M31m19(2_147_483_629, true), M31(2_147_483_648, false),
}
/// an id whose Barrett is its own
#[derive(Copy, Clone, Eq, PartialEq)]
pub enum DynA {}
impl Id for DynA {
    fn companion_barrett() -> &'static Barrett {
        static B: Barrett = Barrett::new(12345);
        &B
    }
}
/// a modulus in 1..=2^31 of varied shape
pub fn modulus(r: &mut Rng) -> u32 {
    match r.below(8) {
        0 => r.range(1, 20) as u32,
        1 => r.range(1, 5000) as u32,
        2 => (r.bits(31) as u32).max(1),
        3 => (1u32 << r.below(32)).max(1),
        4 => { let p = 1u64 << r.range(1, 31); (p - r.below(3).min(p as usize - 1) as u64) as u32 }
        5 => (1u32 << 31) - r.below(50) as u32,
        6 => *r.pick(&[998_244_353u32, 1_000_000_007, 2_147_483_647, 65_537, 46_340 * 46_341, 46_340 * 46_340, 1_000_000_000]),
        _ => r.range(1, 1 << 31) as u32,
    }
}
/// a residue of varied shape
pub fn residue(r: &mut Rng, m: u32) -> u32 {
    match r.below(6) {
        0 => (r.below(4) as u32).min(m - 1),
        1 => m - 1 - (r.below(4) as u32).min(m - 1),
        2 => (m / 2).saturating_sub(1).saturating_add(r.below(3) as u32).min(m - 1),
        3 => (r.bits(31) % m as u128) as u32,
        _ => r.below(m as usize) as u32,
    }
}
pub fn mulmod(a: u128, b: u128, m: u128) -> u128 {
    a % m * (b % m) % m
}
pub fn powmod(mut a: u128, mut n: u64, m: u128) -> u128 {
    let mut r = 1 % m;
    a %= m;
    while n > 0 {
        if n & 1 == 1 { r = r * a % m }
        a = a * a % m;
        n >>= 1;
    }
    r
}
pub fn gcd(a: u64, b: u64) -> u64 { if b == 0 { a } else { gcd(b, a % b) } }
/// primality by trial division
pub fn prime(n: u64) -> bool {
    n >= 2 && (2..).take_while(|d| d * d <= n).all(|d| n % d != 0)
}
