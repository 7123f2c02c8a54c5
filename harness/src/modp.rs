//! arithmetic modulo P = 2^61 - 1 (used by the hashed monoids; never panics)
pub const P: u64 = (1 << 61) - 1;
pub fn add(a: u64, b: u64) -> u64 {
    let s = a + b;
    if s >= P { s - P } else { s }
}
pub fn mul(a: u64, b: u64) -> u64 {
    let t = a as u128 * b as u128;
    let s = (t as u64 & P) + (t >> 61) as u64;
    if s >= P { s - P } else { s }
}
