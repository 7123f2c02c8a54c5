//! Instrumented monoids with strong (nearly injective) semantics.
use crate::modp::{add, mul, P};
use rust_cp::traits::monoid::{MapMonoid, Monoid};

/// Free monoid: words over u16. The product of a range *is* the sequence of its elements.
pub struct Free;
impl Monoid for Free {
    type S = Vec<u16>;
    fn identity() -> Vec<u16> {
        vec![]
    }
    fn binary_operation(a: &Vec<u16>, b: &Vec<u16>) -> Vec<u16> {
        let mut v = Vec::with_capacity(a.len() + b.len());
        v.extend_from_slice(a);
        v.extend_from_slice(b);
        v
    }
}

/// Sequence hash: order-sensitive polynomial hash + length + weight sum.
/// Under the affine map x -> a*x + b it transforms exactly.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Seq {
    pub h: u64,   // sum x_i B^(len-1-i)
    pub pw: u64,  // B^len
    pub geo: u64, // sum B^i, i < len
    pub sum: u64,
    pub len: u64,
}
pub const B: u64 = 911_382_323_911_382_323 % P;
pub const SEQ_ID: Seq = Seq { h: 0, pw: 1, geo: 0, sum: 0, len: 0 };
pub fn leaf(x: u64) -> Seq {
    Seq { h: x % P, pw: B, geo: 1, sum: x % P, len: 1 }
}
pub fn cat(a: &Seq, b: &Seq) -> Seq {
    Seq { h: add(mul(a.h, b.pw), b.h), pw: mul(a.pw, b.pw), geo: add(mul(a.geo, b.pw), b.geo), sum: add(a.sum, b.sum), len: a.len.wrapping_add(b.len) }
}
pub fn amap(f: &(u64, u64), s: &Seq) -> Seq {
    Seq { h: add(mul(f.0, s.h), mul(f.1, s.geo)), sum: add(mul(f.0, s.sum), mul(f.1, s.len % P)), ..*s }
}
/// f after g
pub fn acomp(f: &(u64, u64), g: &(u64, u64)) -> (u64, u64) {
    (mul(f.0, g.0), add(mul(f.0, g.1), f.1))
}
pub struct SeqM;
impl Monoid for SeqM {
    type S = Seq;
    fn identity() -> Seq {
        SEQ_ID
    }
    fn binary_operation(a: &Seq, b: &Seq) -> Seq {
        cat(a, b)
    }
}
/// SeqM with affine maps (non-commuting).
pub struct SeqAff;
impl MapMonoid for SeqAff {
    type M = SeqM;
    type F = (u64, u64);
    fn identity_map() -> (u64, u64) {
        (1, 0)
    }
    fn mapping(f: &(u64, u64), x: &Seq) -> Seq {
        amap(f, x)
    }
    fn composition(f: &(u64, u64), g: &(u64, u64)) -> (u64, u64) {
        acomp(f, g)
    }
}

/// Affine maps under composition (non-commutative group-like monoid), left-to-right product.
pub struct Aff;
impl Monoid for Aff {
    type S = (u64, u64);
    fn identity() -> (u64, u64) {
        (1, 0)
    }
    fn binary_operation(a: &(u64, u64), b: &(u64, u64)) -> (u64, u64) {
        acomp(b, a)
    }
}

/// Free action: every element is (birth id, list of maps applied to it, oldest first).
pub type Cell = (u16, Vec<u16>);
pub struct FreeAct;
pub struct FreeCells;
impl Monoid for FreeCells {
    type S = Vec<Cell>;
    fn identity() -> Vec<Cell> {
        vec![]
    }
    fn binary_operation(a: &Vec<Cell>, b: &Vec<Cell>) -> Vec<Cell> {
        let mut v = a.clone();
        v.extend_from_slice(b);
        v
    }
}
impl MapMonoid for FreeAct {
    type M = FreeCells;
    type F = Vec<u16>;
    fn identity_map() -> Vec<u16> {
        vec![]
    }
    fn mapping(f: &Vec<u16>, x: &Vec<Cell>) -> Vec<Cell> {
        x.iter()
            .map(|(i, l)| {
                let mut l = l.clone();
                l.extend_from_slice(f);
                (*i, l)
            })
            .collect()
    }
    fn composition(f: &Vec<u16>, g: &Vec<u16>) -> Vec<u16> {
        let mut v = g.clone();
        v.extend_from_slice(f);
        v
    }
}

/// Commutative free action: a multiset of cells, kept sorted.
pub struct BagCells;
pub struct BagAct;
impl Monoid for BagCells {
    type S = Vec<Cell>;
    fn identity() -> Vec<Cell> {
        vec![]
    }
    fn binary_operation(a: &Vec<Cell>, b: &Vec<Cell>) -> Vec<Cell> {
        let mut v = a.clone();
        v.extend_from_slice(b);
        v.sort();
        v
    }
}
impl MapMonoid for BagAct {
    type M = BagCells;
    type F = Vec<u16>;
    fn identity_map() -> Vec<u16> {
        vec![]
    }
    fn mapping(f: &Vec<u16>, x: &Vec<Cell>) -> Vec<Cell> {
        let mut v = FreeAct::mapping(f, x);
        v.sort();
        v
    }
    fn composition(f: &Vec<u16>, g: &Vec<u16>) -> Vec<u16> {
        FreeAct::composition(f, g)
    }
}

/// Commutative sums with affine maps: two independent hashes of the multiset.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Bag {
    pub s: u64,
    pub t: u64, // sum of secret tags: identifies *which* vertices are in the product
    pub len: u64,
}
pub struct BagSum;
impl Monoid for BagSum {
    type S = Bag;
    fn identity() -> Bag {
        Bag { s: 0, t: 0, len: 0 }
    }
    fn binary_operation(a: &Bag, b: &Bag) -> Bag {
        Bag { s: add(a.s, b.s), t: a.t.wrapping_add(b.t), len: a.len.wrapping_add(b.len) }
    }
}
pub struct BagAff;
impl MapMonoid for BagAff {
    type M = BagSum;
    type F = (u64, u64);
    fn identity_map() -> (u64, u64) {
        (1, 0)
    }
    fn mapping(f: &(u64, u64), x: &Bag) -> Bag {
        Bag { s: add(mul(f.0, x.s), mul(f.1, x.len % P)), ..*x }
    }
    fn composition(f: &(u64, u64), g: &(u64, u64)) -> (u64, u64) {
        acomp(f, g)
    }
}
/// max with add; the minimum value acts as "no element"
pub struct MaxAdd;
impl MapMonoid for MaxAdd {
    type M = rust_cp::misc::monoids::Max<i64>;
    type F = i64;
    fn identity_map() -> i64 {
        0
    }
    fn mapping(f: &i64, x: &i64) -> i64 {
        if *x == i64::MIN { *x } else { x.wrapping_add(*f) }
    }
    fn composition(f: &i64, g: &i64) -> i64 {
        f.wrapping_add(*g)
    }
}
/// min with "assign or add" maps (non-commuting): Some(v) assigns, then add
pub struct MinAssign;
impl MapMonoid for MinAssign {
    type M = rust_cp::misc::monoids::Min<i64>;
    type F = (Option<i64>, i64);
    fn identity_map() -> Self::F {
        (None, 0)
    }
    fn mapping(f: &Self::F, x: &i64) -> i64 {
        if *x == i64::MAX {
            return *x;
        }
        f.0.unwrap_or(*x).wrapping_add(f.1)
    }
    fn composition(f: &Self::F, g: &Self::F) -> Self::F {
        match f.0 {
            Some(v) => (Some(v), f.1),
            None => (g.0, g.1.wrapping_add(f.1)),
        }
    }
}

/// min with clamping: maps do not commute, include assignment, and move the identity (a map of the
/// minimum need only satisfy f(min(x, y)) = min(f(x), f(y)))
pub struct Clamp;
impl MapMonoid for Clamp {
    type M = rust_cp::misc::monoids::Min<i64>;
    type F = (i64, i64);
    fn identity_map() -> (i64, i64) {
        (i64::MIN, i64::MAX)
    }
    fn mapping(f: &(i64, i64), x: &i64) -> i64 {
        (*x).max(f.0).min(f.1)
    }
    fn composition(f: &(i64, i64), g: &(i64, i64)) -> (i64, i64) {
        (Self::mapping(f, &g.0), Self::mapping(f, &g.1))
    }
}
pub fn clamp(r: &mut crate::Rng) -> (i64, i64) {
    let (a, b) = (r.irange(-40, 40), r.irange(-40, 40));
    match r.below(5) { 0 => (a, a), 1 => (i64::MIN, b), 2 => (a, i64::MAX), 3 => (i64::MIN, i64::MAX), _ => (a.min(b), a.max(b)) }
}

/// A predicate that only the exact products of a search satisfy: "x is the product of at most k
/// of the elements met so far". `folds` are the products of 0, 1, 2, ... elements in search order.
/// None when the products come back to an accepted value later (then it is not monotone).
pub fn member_pred<S: PartialEq + Clone + 'static>(folds: &[S], k: usize) -> Option<Box<dyn Fn(&S) -> bool>> {
    let ok: Vec<S> = folds[..=k.min(folds.len() - 1)].to_vec();
    let mut left = false;
    for f in folds {
        let inside = ok.contains(f);
        if left && inside {
            return None;
        }
        left |= !inside;
    }
    Some(Box::new(move |x: &S| ok.contains(x)))
}
