//! C32 generic components work for every type that meets their bounds. Each history runs on plain integers and on
//! exotic types (owning and non-Copy, borrowed, large, zero-sized, thread-confined, with nothing beyond the stated
//! bounds); the answers, translated back, must be the same.
use rust_cp::data_structure::{fenwick_tree::FenwickTree, lazy_segtree::LazySegtree, min_heap::MinHeap, segtree::Segtree, sparse_table::SparseTable};
use rust_cp::graph::{heavy_light_decomp::HLD, max_flow::Dinic};
use rust_cp::math::number_theory;
use rust_cp::misc::{input::In, monoids::*, recursive_function::*};
use rust_cp::string::{aho_corasick::AhoCorasick, kmp::kmp, z_algorithm::z_function};
use rust_cp::traits::{integral::Integral, monoid::{MapMonoid, Monoid}, numeric::*};
use std::cell::{Cell, RefCell};
use std::cmp::Ordering;
use std::fmt;
use std::marker::PhantomData;
use std::rc::Rc;
use std::str::FromStr;
use vmon::*;

fn lr(r: &mut Rng, n: usize) -> (usize, usize) {
    let (a, b) = (r.below(n + 1), r.below(n + 1));
    (a.min(b), a.max(b))
}
// ------------------------------------------------------------- carriers of an i64
/// a value that carries an integer, built with nothing but Clone in mind
trait Carrier<'a>: Clone {
    const NAME: &'static str;
    fn put(x: i64, pool: &'a Pool) -> Self;
    fn out(&self) -> i64;
}
/// integers that borrowed carriers point at
struct Pool(Vec<i64>);
fn pool() -> Pool { Pool((-2000..=2000).collect()) }
impl<'a> Carrier<'a> for i64 {
    const NAME: &'static str = "i64";
    fn put(x: i64, _: &'a Pool) -> i64 { x }
    fn out(&self) -> i64 { *self }
}
/// owns heap memory, not Copy, not Debug, not comparable
struct Owned(Box<i64>);
impl Clone for Owned { fn clone(&self) -> Owned { Owned(Box::new(*self.0)) } }
impl<'a> Carrier<'a> for Owned {
    const NAME: &'static str = "owning";
    fn put(x: i64, _: &'a Pool) -> Owned { Owned(Box::new(x)) }
    fn out(&self) -> i64 { *self.0 }
}
/// confined to its thread
struct Local(Rc<Cell<i64>>);
impl Clone for Local { fn clone(&self) -> Local { Local(Rc::new(Cell::new(self.0.get()))) } }
impl<'a> Carrier<'a> for Local {
    const NAME: &'static str = "thread-confined";
    fn put(x: i64, _: &'a Pool) -> Local { Local(Rc::new(Cell::new(x))) }
    fn out(&self) -> i64 { self.0.get() }
}
/// 1 KB
#[derive(Clone, Copy)]
struct Large([i64; 128]);
impl<'a> Carrier<'a> for Large {
    const NAME: &'static str = "large";
    fn put(x: i64, _: &'a Pool) -> Large { let mut a = [0; 128]; for (i, v) in a.iter_mut().enumerate() { *v = x.wrapping_mul(i as i64 + 1) } Large(a) }
    fn out(&self) -> i64 {
        if (0..128).any(|i| self.0[i] != self.0[0].wrapping_mul(i as i64 + 1)) { violation("a large element was torn".into()) }
        self.0[0]
    }
}
/// borrows from outside, with a lifetime that is not 'static
#[derive(Clone, Copy)]
struct Borrowed<'a>(&'a i64, &'a Pool);
impl<'a> Carrier<'a> for Borrowed<'a> {
    const NAME: &'static str = "borrowed";
    fn put(x: i64, p: &'a Pool) -> Borrowed<'a> { Borrowed(&p.0[(x + 2000) as usize], p) }
    fn out(&self) -> i64 { *self.0 }
}
/// aligned more strictly than any allocator default
#[derive(Clone)]
#[repr(align(128))]
struct Aligned(i64);
impl<'a> Carrier<'a> for Aligned {
    const NAME: &'static str = "over-aligned";
    fn put(x: i64, _: &'a Pool) -> Aligned { Aligned(x) }
    fn out(&self) -> i64 {
        if self as *const _ as usize % 128 != 0 { violation("an over-aligned element is misplaced".into()) }
        self.0
    }
}
/// monoid without identity in the carrier: None is the identity; max or first of the carried numbers
struct Pick<'a, C, const LEFT: bool>(PhantomData<&'a C>);
impl<'a, C: Carrier<'a> + 'a, const LEFT: bool> Monoid for Pick<'a, C, LEFT> {
    type S = Option<C>;
    fn identity() -> Option<C> { None }
    fn binary_operation(a: &Option<C>, b: &Option<C>) -> Option<C> {
        match (a, b) {
            (None, x) | (x, None) => x.clone(),
            (Some(x), Some(y)) => Some(if LEFT || x.out() >= y.out() { x.clone() } else { y.clone() }),
        }
    }
}
/// maps that overwrite; the map itself is carried
struct Assign<'a, C>(PhantomData<&'a C>);
impl<'a, C: Carrier<'a> + 'a> MapMonoid for Assign<'a, C> {
    type M = Pick<'a, C, false>;
    type F = Option<C>;
    fn identity_map() -> Option<C> { None }
    fn mapping(f: &Option<C>, x: &Option<C>) -> Option<C> { if f.is_some() && x.is_some() { f.clone() } else { x.clone() } }
    fn composition(f: &Option<C>, g: &Option<C>) -> Option<C> { f.clone().or(g.clone()) }
}
fn o<'a, C: Carrier<'a>>(x: Option<C>) -> i64 { x.map_or(i64::MIN, |c| c.out()) }

fn segtree<'a, C: Carrier<'a> + 'a, const LEFT: bool>(mut r: Rng, p: &'a Pool) -> Vec<i64> {
    let n = r.below(20);
    let mut t: Segtree<Pick<'a, C, LEFT>> = if r.chance(1, 4) { Segtree::new(n) } else { (0..n).map(|_| Some(C::put(r.irange(-1000, 1000), p))).collect::<Vec<_>>().into() };
    let mut v = vec![];
    for _ in 0..r.below(30) {
        match r.below(6) {
            0 if n > 0 => { let (i, x) = (r.below(n), r.irange(-1000, 1000)); t.set(i, Some(C::put(x, p))) }
            1 if n > 0 => v.push(o(t.get(r.below(n)))),
            2 => v.push(o(t.all_prod())),
            3 => { let (a, k) = (r.below(n + 1), r.irange(-1000, 1000)); v.push(t.max_right(a, |x| x.as_ref().map_or(true, |c| LEFT || c.out() <= k)) as i64) }
            4 => { let (a, k) = (r.below(n + 1), r.irange(-1000, 1000)); v.push(t.min_left(a, |x| x.as_ref().map_or(true, |c| LEFT || c.out() <= k)) as i64) }
            _ => { let (a, b) = lr(&mut r, n); v.push(o(t.prod(a, b))) }
        }
    }
    v
}
fn lazy<'a, C: Carrier<'a> + 'a>(mut r: Rng, p: &'a Pool) -> Vec<i64> {
    let n = r.below(20);
    let mut t: LazySegtree<Assign<'a, C>> = if r.chance(1, 4) { LazySegtree::new(n) } else { (0..n).map(|_| Some(C::put(r.irange(-1000, 1000), p))).collect::<Vec<_>>().into() };
    let mut v = vec![];
    for _ in 0..r.below(30) {
        let (x, (a, b)) = (r.irange(-1000, 1000), lr(&mut r, n));
        match r.below(9) {
            0 if n > 0 => t.set(r.below(n), Some(C::put(x, p))),
            1 if n > 0 => v.push(o(t.get(r.below(n)))),
            2 => v.push(o(t.all_prod())),
            3 => v.push(t.max_right(a, |y| y.map_or(true, |c| c.out() <= x)) as i64),
            4 => v.push(t.min_left(b, |y| y.map_or(true, |c| c.out() <= x)) as i64),
            5 | 6 => t.apply_range(a, b, Some(C::put(x, p))),
            7 if n > 0 => t.apply(r.below(n), Some(C::put(x, p))),
            _ => v.push(o(t.prod(a, b))),
        }
    }
    v
}
fn decomposition<'a, C: Carrier<'a> + 'a>(mut r: Rng, p: &'a Pool) -> Vec<i64> {
    let n = r.range(1, 16);
    let g = gen::tree(&mut r, n);
    let init: Vec<Option<C>> = (0..n).map(|_| Some(C::put(r.irange(-1000, 1000), p))).collect();
    let mut t: HLD<Assign<'a, C>> = if r.chance(1, 4) { HLD::new(&g.g, g.root) } else { HLD::with_init_value(&g.g, g.root, &init) };
    let mut v = vec![];
    for _ in 0..r.below(24) {
        let (a, b, x) = (r.below(n), r.below(n), r.irange(-1000, 1000));
        match r.below(6) {
            0 => t.set(a, Some(C::put(x, p))),
            1 => v.push(o(t.get(a))),
            2 => t.apply_path(a, b, Some(C::put(x, p))),
            3 => t.apply_subtree(a, Some(C::put(x, p))),
            4 => v.push(o(t.subtree_prod(a))),
            _ => v.push(o(t.path_prod(a, b))),
        }
    }
    v
}
/// ordered by the carried number, backwards, and nothing else: not Clone, not Debug
struct Ranked<C>(C);
impl<'a, C: Carrier<'a>> Ranked<C> { fn k(&self) -> i64 { self.0.out() } }
macro_rules! ranked {
    ($([$($g:tt)*] $t:ty),*) => { $(
        impl<$($g)*> PartialEq for Ranked<$t> { fn eq(&self, o: &Self) -> bool { self.k() == o.k() } }
        impl<$($g)*> Eq for Ranked<$t> {}
        impl<$($g)*> PartialOrd for Ranked<$t> { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { Some(self.cmp(o)) } }
        impl<$($g)*> Ord for Ranked<$t> { fn cmp(&self, o: &Self) -> Ordering { o.k().cmp(&self.k()) } }
    )* };
}
ranked!([] i64, [] Owned, [] Local, [] Large, ['a] Borrowed<'a>, [] Aligned);
fn heap<'a, C: Carrier<'a> + 'a>(mut r: Rng, p: &'a Pool) -> Vec<i64>
where Ranked<C>: Ord {
    let mut h = MinHeap::new();
    let mut q = MinHeap::with_capacity(r.below(5));
    let mut v = vec![];
    for _ in 0..r.below(60) {
        let x = r.irange(-20, 20);
        match r.below(9) {
            0..=2 => h.push(Ranked(C::put(x, p))),
            3 => q.push(Ranked(C::put(x, p))),
            4 => v.push(h.pop().map_or(i64::MIN, |x| x.k())),
            5 => v.push(h.peek().map_or(i64::MIN, |x| x.k())),
            6 => h.append(&mut q),
            7 if r.chance(1, 6) => h.clear(),
            _ => v.push((h.len() + 100 * q.is_empty() as usize) as i64),
        }
    }
    v.extend(h.into_sorted_vec().iter().map(|x| x.k()));
    v.extend(q.into_sorted_vec().iter().map(|x| x.k()));
    v
}
/// equality and nothing else
struct Letter<C>(C);
impl<'a, C: Carrier<'a>> Letter<C> { fn k(&self) -> i64 { self.0.out() } }
impl PartialEq for Letter<i64> { fn eq(&self, o: &Self) -> bool { self.k() == o.k() } }
impl PartialEq for Letter<Owned> { fn eq(&self, o: &Self) -> bool { self.k() == o.k() } }
impl PartialEq for Letter<Local> { fn eq(&self, o: &Self) -> bool { self.k() == o.k() } }
impl PartialEq for Letter<Large> { fn eq(&self, o: &Self) -> bool { self.k() == o.k() } }
impl<'a> PartialEq for Letter<Borrowed<'a>> { fn eq(&self, o: &Self) -> bool { self.k() == o.k() } }
impl PartialEq for Letter<Aligned> { fn eq(&self, o: &Self) -> bool { self.k() == o.k() } }
fn words<'a, C: Carrier<'a> + 'a>(mut r: Rng, p: &'a Pool) -> Vec<i64>
where Letter<C>: PartialEq {
    let per = r.range(1, 6);
    let s: Vec<Letter<C>> = (0..r.below(40)).map(|i| Letter(C::put(if r.chance(1, 9) { 9 } else { (i % per / 2) as i64 }, p))).collect();
    kmp(&s).into_iter().chain(z_function(&s)).map(|x| x as i64).collect()
}
/// SparseTable wants Copy
fn sparse<'a, C: Carrier<'a> + Copy + 'a>(mut r: Rng, p: &'a Pool) -> Vec<i64> {
    let n = r.range(1, 40);
    let s: Vec<C> = (0..n).map(|_| C::put(r.irange(-1000, 1000), p)).collect();
    // the operation borrows and is not Copy
    let asked = RefCell::new(vec![String::new()]);
    let t = SparseTable::from(&s, C::put(0, p), |a: C, b: C| { asked.borrow_mut()[0].clear(); if a.out() <= b.out() { a } else { b } });
    let v = (0..20).map(|_| { let (a, b) = lr(&mut r, n); if a < b { t.get(a, b).out() } else { 0 } }).collect();
    v
}
#[derive(Clone, Copy, PartialEq)]
struct Vec3([i64; 3]);
impl Default for Vec3 { fn default() -> Vec3 { Vec3([0; 3]) } }
impl std::ops::Add for Vec3 { type Output = Vec3; fn add(self, o: Vec3) -> Vec3 { Vec3([self.0[0] + o.0[0], self.0[1] + o.0[1], self.0[2] + o.0[2]]) } }
impl std::ops::Sub for Vec3 { type Output = Vec3; fn sub(self, o: Vec3) -> Vec3 { Vec3([self.0[0] - o.0[0], self.0[1] - o.0[1], self.0[2] - o.0[2]]) } }
impl std::ops::AddAssign for Vec3 { fn add_assign(&mut self, o: Vec3) { *self = *self + o } }
impl<'a> std::ops::AddAssign<&'a str> for Vec3 { fn add_assign(&mut self, o: &'a str) { *self = *self + Vec3([o.len() as i64, 0, 0]) } }
impl std::ops::AddAssign<Owned> for Vec3 { fn add_assign(&mut self, o: Owned) { *self = *self + Vec3([*o.0, 0, 0]) } }
impl PartialOrd for Vec3 { fn partial_cmp(&self, o: &Vec3) -> Option<Ordering> { self.0[0].partial_cmp(&o.0[0]) } }
/// a type without subtraction: prefix sums and searches do not need it
#[derive(Clone, Copy, PartialEq, PartialOrd, Default)]
struct Top(i64);
impl std::ops::Add for Top { type Output = Top; fn add(self, o: Top) -> Top { Top(self.0.max(o.0)) } }
impl std::ops::AddAssign for Top { fn add_assign(&mut self, o: Top) { *self = *self + o } }
fn fenwick(c: &mut Case) {
    let n = c.rng.below(30);
    let a: Vec<i64> = (0..n).map(|_| c.rng.irange(0, 30)).collect();
    let mut t = FenwickTree::from(&a);
    let mut v = FenwickTree::from(&a.iter().map(|x| Vec3([*x, -x, 2 * x])).collect::<Vec<_>>());
    let mut m = FenwickTree::from(&a.iter().map(|x| Top(*x)).collect::<Vec<_>>());
    let mut all = a.clone();
    op!(c, 1, [n, a.iter().sum::<i64>()], "fenwick trees of integers, triples and maxima, {a:?}");
    let text = "x".repeat(30);
    for _ in 0..c.rng.below(30) {
        let x = c.rng.irange(0, 30);
        if n > 0 && c.rng.chance(1, 2) {
            let i = c.rng.below(n);
            t.add(i, x);
            match c.rng.below(3) { 0 => v.add(i, Vec3([x, 0, 0])), 1 => v.add(i, &text[..x as usize]), _ => v.add(i, Owned(Box::new(x))) }
            m.add(i, Top(x));
            all[i] = all[i].max(x);
        }
        let (l, r) = lr(&mut c.rng, n);
        check_eq!(c, v.sum(l, r).0[0], t.sum(l, r), "sum of triples {l}..{r}");
        check_eq!(c, v.pref(r).0[0], t.pref(r), "prefix of triples {r}");
        check_eq!(c, m.pref(r).0, all[..r].iter().copied().max().unwrap_or(0), "prefix maximum {r}");
        let k = c.rng.irange(0, 500);
        check_eq!(c, v.search(&Vec3([k, 7, 7])), t.search(&k), "search {k} among triples");
    }
    c.nontrivial = n > 1;
}
fn zero_sized(c: &mut Case) {
    struct Unit;
    impl Monoid for Unit { type S = (); fn identity() {} fn binary_operation(_: &(), _: &()) {} }
    impl MapMonoid for Unit { type M = Unit; type F = (); fn identity_map() {} fn mapping(_: &(), _: &()) {} fn composition(_: &(), _: &()) {} }
    let n = c.size(300);
    op!(c, 1, [n], "zero-sized elements, n = {n}");
    let mut t: Segtree<Unit> = vec![(); n].into();
    let mut z: LazySegtree<Unit> = LazySegtree::new(n);
    let mut h = MinHeap::new();
    for i in 0..n {
        t.set(i, ());
        z.apply(i, ());
        h.push(());
        check_eq!(c, h.len(), i + 1, "units in the heap");
    }
    let (l, r) = lr(&mut c.rng, n);
    t.prod(l, r);
    z.apply_range(l, r, ());
    check_eq!(c, t.max_right(l, |_| true), n, "max_right over units");
    check_eq!(c, t.min_left(r, |_| true), 0, "min_left over units");
    check_eq!(c, z.max_right(l, |_| true), n, "lazy max_right over units");
    check_eq!(c, z.min_left(r, |_| true), 0, "lazy min_left over units");
    if n > 0 { let s = SparseTable::from(&vec![(); n], (), |_, _| ()); if l < r { s.get(l, r) } }
    let want: Vec<usize> = (0..n).collect();
    check_eq!(c, kmp(&vec![(); n]), want, "borders of units");
    let z: Vec<usize> = (0..n).map(|i| if i == 0 { 0 } else { n - i }).collect();
    check_eq!(c, z_function(&vec![(); n]), z, "z of units");
    let mut left = n;
    while h.pop().is_some() { left -= 1 }
    check_eq!(c, left, 0, "units popped");
    c.nontrivial = n > 1;
    c.hit("zero-sized elements");
}
// ------------------------------------------------------------- a user-defined integer
/// integers of the user's own: stored with other bits than the built-in ones, shown differently, with a narrower maximum
macro_rules! integer {
    ($n:ident, $r:ty, $pack:expr, $unpack:expr, [$($t:ident $f:ident $ta:ident $fa:ident),*]) => {
        #[derive(Clone, Copy, PartialEq, Eq)]
        struct $n { bits: $r }
        impl $n {
            fn of(x: i64) -> $n { $n { bits: $pack(x) } }
            fn v(self) -> i64 { $unpack(self.bits) }
        }
        impl PartialOrd for $n { fn partial_cmp(&self, o: &$n) -> Option<Ordering> { Some(self.cmp(o)) } }
        impl Ord for $n { fn cmp(&self, o: &$n) -> Ordering { self.v().cmp(&o.v()) } }
        $(
            impl std::ops::$t for $n { type Output = $n; fn $f(self, o: $n) -> $n { $n::of(std::ops::$t::$f(self.v(), o.v())) } }
            impl std::ops::$ta for $n { fn $fa(&mut self, o: $n) { *self = std::ops::$t::$f(*self, o) } }
        )*
        impl std::ops::Not for $n { type Output = $n; fn not(self) -> $n { $n::of(!self.v()) } }
        impl std::iter::Sum for $n { fn sum<I: Iterator<Item = $n>>(i: I) -> $n { $n::of(i.map(|x| x.v()).sum()) } }
        impl std::iter::Product for $n { fn product<I: Iterator<Item = $n>>(i: I) -> $n { $n::of(i.map(|x| x.v()).product()) } }
        impl fmt::Display for $n { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "<{}>", self.v()) } }
        impl fmt::Debug for $n { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "mine") } }
        impl fmt::Binary for $n { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "two") } }
        impl fmt::Octal for $n { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "eight") } }
        impl Zero for $n { fn zero() -> $n { $n::of(0) } }
        impl One for $n { fn one() -> $n { $n::of(1) } }
        impl BoundedBelow for $n { fn min_value() -> $n { $n::of(-1_000_000_000_000) } }
        impl BoundedAbove for $n { fn max_value() -> $n { $n::of(1_000_000_000_000) } }
        impl Integral for $n {}
    };
    ($n:ident, $r:ty, $pack:expr, $unpack:expr) => {
        integer!($n, $r, $pack, $unpack, [Add add AddAssign add_assign, Sub sub SubAssign sub_assign, Mul mul MulAssign mul_assign, Div div DivAssign div_assign, Rem rem RemAssign rem_assign, BitOr bitor BitOrAssign bitor_assign, BitAnd bitand BitAndAssign bitand_assign, BitXor bitxor BitXorAssign bitxor_assign, Shl shl ShlAssign shl_assign, Shr shr ShrAssign shr_assign]);
    };
}
integer!(Wide, (i64, i128), |x: i64| (!x, 5 * x as i128), |b: (i64, i128)| !b.0);
integer!(Word8, (u32, u32), |x: i64| ((x >> 32) as u32, !x as u32), |b: (u32, u32)| ((b.0 as u64) << 32 | !b.1 as u64) as i64);
integer!(Bytes, [u8; 8], |x: i64| x.wrapping_mul(3).to_be_bytes(), |b: [u8; 8]| i64::from_be_bytes(b).wrapping_mul(0xaaaa_aaaa_aaaa_aaab_u64 as i64));
fn user_integer(c: &mut Case) {
    match c.rng.below(3) {
        0 => integers(c, Wide::of, Wide::v),
        1 => integers(c, Word8::of, Word8::v),
        _ => integers(c, Bytes::of, Bytes::v),
    }
}
#[allow(non_snake_case)]
fn integers<T: Integral>(c: &mut Case, Mine: fn(i64) -> T, v_: fn(T) -> i64) {
    let n = c.rng.range(2, 10);
    let e = gen::digraph(&mut c.rng, n, 3 * n);
    let (mut a, mut b) = (Dinic::<i64>::new(n), Dinic::<T>::new(n));
    for (u, v) in &e { let k = c.rng.irange(0, 20); c.h(mix((u * 99 + v) as u64) ^ k as u64); a.add_edge(*u, *v, k); b.add_edge(*u, *v, Mine(k)) }
    op!(c, 1, [n, e.len()], "a user-defined integer: flow on {n} vertices and {} arcs, gcd family, monoids", e.len());
    for _ in 0..3 {
        let s = c.rng.below(n);
        let t = (s + 1 + c.rng.below(n - 1)) % n;
        check_eq!(c, v_(b.get_max_flow(s, t)), a.get_max_flow(s, t), "flow {s} to {t} in a user-defined integer");
    }
    for _ in 0..20 {
        let (x, y) = (c.rng.irange(-5000, 5000), c.rng.irange(-5000, 5000));
        check_eq!(c, v_(number_theory::gcd(Mine(x), Mine(y))), number_theory::gcd(x, y), "gcd({x},{y})");
        if x != 0 || y != 0 { check_eq!(c, v_(number_theory::lcm(Mine(x), Mine(y))), number_theory::lcm(x, y), "lcm({x},{y})") }
        let (p, q, g) = number_theory::ex_gcd(Mine(x), Mine(y));
        check_eq!(c, (v_(p) * x + v_(q) * y, v_(g)), (v_(g), number_theory::ex_gcd(x, y).2), "ex_gcd({x},{y})");
    }
    let v: Vec<i64> = (0..n).map(|_| c.rng.irange(-5, 5)).collect();
    let m: Vec<T> = v.iter().map(|x| Mine(*x)).collect();
    let (l, r) = lr(&mut c.rng, n);
    check_eq!(c, v_(Segtree::<Max<T>>::from(m.clone()).prod(l, r)), v[l..r].iter().copied().max().unwrap_or(-1_000_000_000_000), "maximum {l}..{r}");
    check_eq!(c, v_(Segtree::<Min<T>>::from(m.clone()).prod(l, r)), v[l..r].iter().copied().min().unwrap_or(1_000_000_000_000), "minimum {l}..{r}");
    check_eq!(c, v_(Segtree::<Additive<T>>::from(m.clone()).prod(l, r)), v[l..r].iter().sum::<i64>(), "sum {l}..{r}");
    check_eq!(c, v_(Segtree::<Multiplicative<T>>::from(m).prod(l, r)), v[l..r].iter().product::<i64>(), "product {l}..{r}");
    // only what the monoid needs: an ordered type that is no number, a number that is not ordered
    #[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
    enum Size { S, M, L }
    impl BoundedBelow for Size { fn min_value() -> Size { Size::S } }
    impl BoundedAbove for Size { fn max_value() -> Size { Size::L } }
    #[derive(Clone, Copy)]
    struct Complex(i64, i64);
    impl Zero for Complex { fn zero() -> Complex { Complex(0, 0) } }
    impl One for Complex { fn one() -> Complex { Complex(1, 0) } }
    impl std::ops::Add for Complex { type Output = Complex; fn add(self, o: Complex) -> Complex { Complex(self.0 + o.0, self.1 + o.1) } }
    impl std::ops::Mul for Complex { type Output = Complex; fn mul(self, o: Complex) -> Complex { Complex((self.0 * o.0 - self.1 * o.1) % 9973, (self.0 * o.1 + self.1 * o.0) % 9973) } }
    let z: Vec<Size> = v.iter().map(|x| if *x < 0 { Size::S } else if *x < 3 { Size::M } else { Size::L }).collect();
    check!(c, Segtree::<Max<Size>>::from(z.clone()).prod(l, r) == z[l..r].iter().copied().max().unwrap_or(Size::S), "greatest of an enumeration");
    check!(c, Segtree::<Min<Size>>::from(z.clone()).prod(l, r) == z[l..r].iter().copied().min().unwrap_or(Size::L), "least of an enumeration");
    let w: Vec<Complex> = v.iter().map(|x| Complex(*x, 1)).collect();
    let (s, p) = (w[l..r].iter().fold(Complex(0, 0), |a, b| a + *b), w[l..r].iter().fold(Complex(1, 0), |a, b| a * *b));
    let (gs, gp) = (Segtree::<Additive<Complex>>::from(w.clone()).prod(l, r), Segtree::<Multiplicative<Complex>>::from(w.clone()).prod(l, r));
    check!(c, (gs.0, gs.1) == (s.0, s.1), "sum of unordered numbers");
    check!(c, (gp.0 - p.0) % 9973 == 0 && (gp.1 - p.1) % 9973 == 0, "product of unordered numbers");
    c.nontrivial = true;
    c.hit("user-defined integers");
}
// ------------------------------------------------------------- reading, recursion, automata
/// cannot be shown, nor can its error
struct Word(String);
struct Silent;
impl FromStr for Word { type Err = Silent; fn from_str(s: &str) -> Result<Word, Silent> { if s.contains('!') { Err(Silent) } else { Ok(Word(s.to_uppercase())) } } }
fn reading(c: &mut Case) {
    let toks: Vec<String> = (0..c.rng.below(30)).map(|_| (0..c.rng.range(1, 5)).map(|_| *c.rng.pick(&['a', 'b', 'é', '7'])).collect()).collect();
    let s = toks.join(" ");
    op!(c, 1, [toks.len(), s.len()], "user types read from {s:?}");
    let mut i = In::new(&s);
    let mut at = 0;
    while at < toks.len() {
        match c.rng.below(3) {
            0 => { let w: Word = i.read(); check_eq!(c, w.0, toks[at].to_uppercase(), "token {at}"); at += 1 }
            1 => { let w = i.checked_read::<Word>(); check_eq!(c, w.map(|x| x.0), Some(toks[at].to_uppercase()), "token {at}"); at += 1 }
            _ => { let k = c.rng.range(0, 3.min(toks.len() - at)); let w: Vec<Word> = i.vec(k); for x in w { check_eq!(c, x.0, toks[at].to_uppercase(), "token {at}"); at += 1 } }
        }
    }
    check!(c, i.checked_read::<Word>().is_none(), "tokens after the last");
    c.nontrivial = toks.len() > 1;
    c.hit("types that cannot be shown, with errors that cannot either");
}
struct Shy(i64);
fn recursion(c: &mut Case) {
    let n = c.rng.range(0, 40);
    op!(c, 1, [n], "recursive functions over borrowed, owned and mutable arguments, n = {n}");
    // borrowed slices in and out
    let v: Vec<i64> = (0..n).map(|_| c.rng.irange(-99, 99)).collect();
    fn most<'a>(f: &mut dyn Callable<&'a [i64], Option<&'a i64>>, s: &'a [i64]) -> Option<&'a i64> {
        if s.len() < 2 { return s.first() }
        let (a, b) = s.split_at(s.len() / 2);
        let (x, y) = (f.call(a), f.call(b));
        if x.unwrap() >= y.unwrap() { x } else { y }
    }
    let mut f = RecursiveFunction::new(most);
    check_eq!(c, f.call(&v[..]).copied(), v.iter().copied().max(), "borrowed slices");
    // owned values moved in and out, none of them Clone
    let mut f = RecursiveFunction2::new(|f: &mut dyn Callable2<Vec<Shy>, Shy, Shy>, mut s: Vec<Shy>, acc: Shy| match s.pop() { None => acc, Some(x) => f.call(s, Shy(acc.0 + x.0)) });
    check_eq!(c, f.call(v.iter().map(|x| Shy(*x)).collect(), Shy(5)).0, 5 + v.iter().sum::<i64>(), "owned values");
    // a mutable borrow of what is outside, and a non-Copy capture that is borrowed
    let mut seen = vec![];
    let words = vec!["even".to_string(), "odd".to_string()];
    let log = RefCell::new(&mut seen);
    let mut f = RecursiveFunction3::new(|f: &mut dyn Callable3<usize, &str, Box<dyn Fn(usize) -> usize>, ()>, k: usize, w: &str, g: Box<dyn Fn(usize) -> usize>| {
        log.borrow_mut().push(format!("{w}{}", g(k)));
        if k > 0 { f.call(k - 1, if k % 2 == 1 { "even" } else { "odd" }, Box::new(move |x| g(x) + 1)) }
        assert!(words.len() == 2);
    });
    f.call(n, if n % 2 == 0 { "even" } else { "odd" }, Box::new(|x| 2 * x));
    drop(f);
    let want: Vec<String> = (0..=n).map(|i| { let k = n - i; format!("{}{}", words[k % 2], 2 * k + i) }).collect();
    check_eq!(c, seen, want, "effects through a borrow");
    let mut f = RecursiveFunction0::new(|_: &mut dyn Callable0<Result<Shy, Silent>>| Err(Silent));
    check!(c, f.call().is_err(), "no arguments, an output without Debug");
    c.nontrivial = n > 1;
    c.hit("borrowed and moved arguments");
}
fn alphabets(c: &mut Case) {
    fn ask<const O: u8, const N: usize>(c: &mut Case, p: &[Vec<usize>], t: &[usize], want: &[usize]) {
        let p: Vec<Vec<u8>> = p.iter().map(|x| x.iter().map(|l| O.wrapping_add(*l as u8)).collect()).collect();
        let q: Vec<&[u8]> = p.iter().map(|x| &x[..]).collect();
        let t: Vec<u8> = t.iter().map(|l| O.wrapping_add(*l as u8)).collect();
        let a = AhoCorasick::<O, N>::from(&q);
        check_eq!(c, a.find_cnt(&t), want, "counts with offset {O} and {N} letters");
        check_eq!(c, a.find_all(&t).iter().map(|x| x.len()).sum::<usize>(), want.iter().sum::<usize>(), "listing with offset {O} and {N} letters");
    }
    let k = c.rng.range(1, 3);
    let p: Vec<Vec<usize>> = (0..c.rng.below(8)).map(|_| (0..c.rng.range(1, 4)).map(|_| c.rng.below(k)).collect()).collect();
    let t: Vec<usize> = (0..c.rng.below(40)).map(|_| c.rng.below(k)).collect();
    op!(c, 1, [p.iter().flatten().fold(p.len() as u64, |a, b| mix(a ^ *b as u64)), t.iter().fold(t.len() as u64, |a, b| mix(a ^ *b as u64))], "patterns {p:?} in {t:?} over several alphabets");
    let want: Vec<usize> = p.iter().map(|x| t.windows(x.len()).filter(|w| w == x).count()).collect();
    ask::<b'a', 26>(c, &p, &t, &want);
    ask::<0, 256>(c, &p, &t, &want);
    let turn = |v: &[usize]| -> Vec<usize> { v.iter().map(|l| 255 - l).collect() };
    ask::<0, 256>(c, &p.iter().map(|x| turn(x)).collect::<Vec<_>>(), &turn(&t), &want);
    ask::<253, 3>(c, &p, &t, &want);
    ask::<b'0', 10>(c, &p, &t, &want);
    ask::<0, 3>(c, &p, &t, &want);
    if k == 1 { ask::<255, 1>(c, &p, &t, &want); ask::<0, 1>(c, &p, &t, &want) }
    c.nontrivial = want.iter().any(|x| *x > 0);
}
// ------------------------------------------------------------- the same history on every carrier
fn segtree_max<'a, C: Carrier<'a> + 'a>(r: Rng, p: &'a Pool) -> Vec<i64> { segtree::<C, false>(r, p) }
fn segtree_first<'a, C: Carrier<'a> + 'a>(r: Rng, p: &'a Pool) -> Vec<i64> { segtree::<C, true>(r, p) }
macro_rules! carriers {
    ($name:ident, $f:ident, $($t:ty),*) => {
        fn $name(c: &mut Case) {
            let p = pool();
            let r = Rng::new(c.rng.u64());
            c.h(r.clone().u64());
            let want = $f::<i64>(r.clone(), &p);
            op!(c, 1, [want.len()], "{} history with {} answers", stringify!($name), want.len());
            $(
                let got = $f::<$t>(r.clone(), &p);
                check_eq!(c, got, want, "{} of {} elements", stringify!($name), <$t>::NAME);
                c.ops += want.len() as u64;
            )*
            c.nontrivial = !want.is_empty();
            c.hit(concat!(stringify!($name), " over exotic elements"));
        }
    };
}
carriers!(segment_tree, segtree_max, Owned, Local, Large, Borrowed, Aligned);
carriers!(segment_tree_left, segtree_first, Owned, Local, Large, Borrowed, Aligned);
carriers!(lazy_segment_tree, lazy, Owned, Local, Large, Borrowed, Aligned);
carriers!(tree_decomposition, decomposition, Owned, Local, Large, Borrowed, Aligned);
carriers!(min_heap, heap, Owned, Local, Large, Borrowed, Aligned);
carriers!(borders, words, Owned, Local, Large, Borrowed, Aligned);
carriers!(sparse_table, sparse, Large, Borrowed);

fn main() {
    run(
        &[
            Workload { name: "segtree", quick: 18000, thorough: 100_000, f: segment_tree },
            Workload { name: "segtree-left", quick: 18000, thorough: 100_000, f: segment_tree_left },
            Workload { name: "lazy", quick: 18000, thorough: 100_000, f: lazy_segment_tree },
            Workload { name: "hld", quick: 18000, thorough: 100_000, f: tree_decomposition },
            Workload { name: "heap", quick: 18000, thorough: 100_000, f: min_heap },
            Workload { name: "borders", quick: 18000, thorough: 100_000, f: borders },
            Workload { name: "sparse", quick: 18000, thorough: 100_000, f: sparse_table },
            Workload { name: "fenwick", quick: 30000, thorough: 200_000, f: fenwick },
            Workload { name: "zero-sized", quick: 9000, thorough: 50_000, f: zero_sized },
            Workload { name: "user-integer", quick: 60000, thorough: 200_000, f: user_integer },
            Workload { name: "reading", quick: 30000, thorough: 200_000, f: reading },
            Workload { name: "recursion", quick: 30000, thorough: 200_000, f: recursion },
            Workload { name: "alphabets", quick: 18000, thorough: 100_000, f: alphabets },
        ],
        &["zero-sized elements", "user-defined integers", "borrowed and moved arguments", "segment_tree over exotic elements", "min_heap over exotic elements"],
    )
}
