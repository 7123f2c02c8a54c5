//! C25 operation counts: every user-supplied operation is counted, the bounds are the advertised
//! asymptotic ones with generous constants, and a runaway call is cut off as soon as it exceeds them.
use rust_cp::data_structure::{union_find::UnionFind, fenwick_tree::FenwickTree, lazy_segtree::LazySegtree, min_heap::MinHeap, segtree::Segtree, sparse_table::SparseTable};
use rust_cp::graph::{bipartite_matching::AugmentedPath, binary_lifting::BinaryLifting, heavy_light_decomp::HLD, shortest_path::dijkstra, tarjan::scc, max_flow::Dinic};
use rust_cp::math::factorial::Factorial;
use rust_cp::misc::{input::In, modint::Mod998244353};
use rust_cp::string::{aho_corasick::AhoCorasick, kmp::kmp, z_algorithm::z_function};
use rust_cp::traits::{integral::Integral, monoid::*, numeric::*};
use std::cell::Cell;
use std::cmp::Ordering;
use vmon::gen::{tree_from_edges, tree_parents, Tree, SHAPES};
use vmon::*;

thread_local! {
    static OPS: Cell<u64> = const { Cell::new(0) };
    static MAPS: Cell<u64> = const { Cell::new(0) };
    static LIMIT: Cell<u64> = const { Cell::new(u64::MAX) };
}
fn tick() {
    OPS.with(|o| {
        o.set(o.get() + 1);
        if o.get() > LIMIT.with(|l| l.get()) { let l = LIMIT.with(|l| l.replace(u64::MAX)); violation(format!("more than {l} user-supplied operations in one call")) }
    })
}
fn tock() {
    MAPS.with(|o| {
        o.set(o.get() + 1);
        if o.get() > 100 * LIMIT.with(|l| l.get()).min(u64::MAX / 100) { let l = LIMIT.with(|l| l.replace(u64::MAX)); violation(format!("more than {} map operations in one call", 100 * l)) }
    })
}
/// runs one call under a bound on the number of counted operations (and 6 times as many maps)
fn within<R>(c: &mut Case, what: &'static str, n: usize, bound: u64, f: impl FnOnce() -> R) -> R {
    OPS.with(|o| o.set(0));
    MAPS.with(|o| o.set(0));
    // cut off far beyond the bound, so that a hopeless call ends
    LIMIT.with(|l| l.set(bound.saturating_mul(4)));
    let r = f();
    LIMIT.with(|l| l.set(u64::MAX));
    let (o, m) = (OPS.with(|o| o.get()), MAPS.with(|o| o.get()));
    c.ops += 1;
    c.h(n as u64 * 131 + o);
    if c.verbose { let s = format!("{what} n={n}: {o} operations, {m} maps, bound {bound}"); c.push_log(s) }
    check!(c, o <= bound, "{what} with n={n}: {o} user-supplied operations, bound {bound}");
    check!(c, m <= 6 * bound, "{what} with n={n}: {m} map operations, bound {}", 6 * bound);
    c.max(what, if bound < 1 << 40 { o * 100 / bound } else { 0 });
    c.hit(what);
    r
}
fn log2(n: usize) -> u64 { (usize::BITS - n.max(1).leading_zeros()) as u64 }

struct Sum;
impl Monoid for Sum {
    type S = u64;
    fn identity() -> u64 { 0 }
    fn binary_operation(a: &u64, b: &u64) -> u64 { tick(); a.wrapping_add(*b) }
}
struct AddSum;
impl MapMonoid for AddSum {
    type M = Mx;
    type F = u64;
    fn identity_map() -> u64 { 0 }
    fn mapping(f: &u64, x: &u64) -> u64 { tock(); x.wrapping_add(*f) }
    fn composition(f: &u64, g: &u64) -> u64 { tock(); f.wrapping_add(*g) }
}
struct Mx;
impl Monoid for Mx {
    type S = u64;
    fn identity() -> u64 { 0 }
    fn binary_operation(a: &u64, b: &u64) -> u64 { tick(); *a.max(b) }
}
fn big(c: &mut Case) -> usize {
    let lim = if c.tier == Tier::Quick { 15 } else { 18 };
    match c.rng.below(4) {
        0 => c.size(200),
        1 => { let k = c.rng.range(6, lim); ((1usize << k) + c.rng.below(3)) - 1 }
        _ => { let k = c.rng.range(6, lim); c.rng.range(1 << (k - 1), 1 << k) }
    }
}
/// ranges that visit both sides of every level, one-element ones, whole, random
fn rng_range(c: &mut Case, n: usize) -> (usize, usize) {
    match c.rng.below(4) { 0 if n >= 2 => (1, n - 1), 1 => (n.min(1), n), _ => c.range(n) }
}
fn segtree(c: &mut Case) {
    let n = big(c);
    op!(c, 1, [n], "segment tree of {n}");
    let a: Vec<u64> = (0..n).map(|_| c.rng.below(100) as u64).collect();
    let mut t: Segtree<Sum> = within(c, "segtree build", n, 6 * n as u64 + 16, || a.clone().into());
    if c.rng.chance(1, 4) { t = within(c, "segtree new", n, 6 * n as u64 + 16, || Segtree::new(n)); }
    let b = 8 * (log2(n) + 2);
    for _ in 0..24 {
        let (l, r) = rng_range(c, n);
        within(c, "segtree prod", n, b, || t.prod(l, r));
        within(c, "segtree all_prod", n, 4, || t.all_prod());
        if n > 0 {
            let p = *c.rng.pick(&[0, n - 1, n / 2, l.min(n - 1)]);
            within(c, "segtree set", n, b, || t.set(p, 5));
            within(c, "segtree get", n, b, || t.get(p));
        }
        let k = *c.rng.pick(&[0, 1, 50, 50 * n as u64, u64::MAX, 100 * (n as u64 / 2), 5]);
        let st = *c.rng.pick(&[0, l, r, n]);
        within(c, "segtree max_right", n, 2 * b, || t.max_right(st, |s| { tick(); *s <= k }));
        within(c, "segtree min_left", n, 2 * b, || t.min_left(st, |s| { tick(); *s <= k }));
    }
    c.nontrivial = n > 64;
}
fn lazy(c: &mut Case) {
    let n = big(c);
    op!(c, 2, [n], "lazy segment tree of {n}");
    let a: Vec<u64> = (0..n).map(|_| c.rng.below(100) as u64).collect();
    let mut t: LazySegtree<AddSum> = within(c, "lazy build", n, 6 * n as u64 + 16, || a.clone().into());
    if c.rng.chance(1, 4) { t = within(c, "lazy new", n, 6 * n as u64 + 16, || LazySegtree::new(n)); }
    let b = 10 * (log2(n) + 2);
    for _ in 0..24 {
        let (l, r) = rng_range(c, n);
        within(c, "lazy apply_range", n, b, || t.apply_range(l, r, 3));
        let (l, r) = rng_range(c, n);
        within(c, "lazy prod", n, b, || t.prod(l, r));
        within(c, "lazy all_prod", n, 4, || t.all_prod());
        if n > 0 {
            let p = *c.rng.pick(&[0, n - 1, n / 2, l.min(n - 1)]);
            match c.rng.below(3) {
                0 => within(c, "lazy set", n, b, || t.set(p, 5)),
                1 => { within(c, "lazy get", n, b, || t.get(p)); }
                _ => within(c, "lazy apply", n, b, || t.apply(p, 1)),
            }
        }
        let k = *c.rng.pick(&[0, 1, 50, 97, 98, 99, 120, u64::MAX]);
        let st = *c.rng.pick(&[0, l, r, n]);
        within(c, "lazy max_right", n, 2 * b, || t.max_right(st, |s| { tick(); s <= k }));
        let st = *c.rng.pick(&[0, l, r, n]);
        within(c, "lazy min_left", n, 2 * b, || t.min_left(st, |s| { tick(); s <= k }));
    }
    c.nontrivial = n > 64;
}
#[derive(Clone, Copy, Default)]
struct Num(i64);
impl std::ops::AddAssign for Num { fn add_assign(&mut self, o: Num) { tick(); self.0 += o.0 } }
impl std::ops::Add for Num { type Output = Num; fn add(self, o: Num) -> Num { tick(); Num(self.0 + o.0) } }
impl std::ops::Sub for Num { type Output = Num; fn sub(self, o: Num) -> Num { tick(); Num(self.0 - o.0) } }
impl PartialEq for Num { fn eq(&self, o: &Num) -> bool { tick(); self.0 == o.0 } }
impl PartialOrd for Num { fn partial_cmp(&self, o: &Num) -> Option<Ordering> { tick(); self.0.partial_cmp(&o.0) } }
fn fenwick(c: &mut Case) {
    let n = big(c);
    op!(c, 3, [n], "Fenwick tree of {n}");
    let a: Vec<Num> = (0..n).map(|_| Num(c.rng.below(5) as i64)).collect();
    let mut t = within(c, "fenwick from", n, 8 * n as u64 + 16, || FenwickTree::from(&a));
    let b = 6 * (log2(n) + 2);
    for _ in 0..24 {
        let (l, r) = rng_range(c, n);
        within(c, "fenwick sum", n, 2 * b, || t.sum(l, r));
        within(c, "fenwick pref", n, b, || t.pref(r));
        if n > 0 { let p = *c.rng.pick(&[0, n - 1, l.min(n - 1), n / 2]); within(c, "fenwick add", n, b, || t.add(p, Num(1))) }
        let k = Num(*c.rng.pick(&[0, 1, n as i64, 2 * n as i64, i64::MAX]));
        within(c, "fenwick search", n, 2 * b, || t.search(&k));
        within(c, "fenwick partition_point", n, 2 * b, || t.partition_point(|x| { tick(); x.0 < k.0 }));
    }
    c.nontrivial = n > 64;
}
fn sparse(c: &mut Case) {
    let n = big(c).clamp(1, 1 << 16);
    op!(c, 4, [n], "sparse table of {n}");
    let a: Vec<u64> = (0..n).map(|_| c.rng.u64()).collect();
    let t = within(c, "sparse build", n, 3 * n as u64 * (log2(n) + 1), || SparseTable::from(&a, 0, |x: u64, y: u64| { tick(); x.max(y) }));
    for _ in 0..40 {
        let (l, r) = rng_range(c, n);
        if l < r { within(c, "sparse get", n, 4, || t.get(l, r)); }
    }
    c.nontrivial = n > 64;
}
struct Ch(u8);
impl PartialEq for Ch { fn eq(&self, o: &Ch) -> bool { tick(); self.0 == o.0 } }
fn strings(c: &mut Case) {
    let n = big(c).max(1);
    let kind = c.rng.below(9);
    let k = c.rng.range(1, n);
    let mut s: Vec<u8> = match kind {
        0 => vec![b'a'; n],
        1 => { let mut v = vec![b'a'; n]; v[k - 1] = b'b'; v }
        2 => { let p: Vec<u8> = (0..k.min(20)).map(|_| c.rng.below(2) as u8).collect(); (0..n).map(|i| p[i % p.len()]).collect() }
        3 => { let (mut a, mut b) = (vec![0u8], vec![0u8, 1]); while b.len() < n { let t = [&b[..], &a[..]].concat(); a = b; b = t; } b.truncate(n); b }
        4 => (0..n).map(|_| c.rng.below(2) as u8).collect(),
        // a^k b a^(k-1) b a^(k-2) ...: long borders that break at once
        5 => { let mut v = vec![]; let mut q = k; while v.len() < n { v.extend(std::iter::repeat(b'a').take(q)); v.push(b'b'); q = if q > 1 { q - 1 } else { k }; } v.truncate(n); v }
        // a^k b a^k c a^k d ... and blocks of one length
        6 => { let q = (n as f64).sqrt() as usize + 1; (0..n).map(|i| if i % q == q - 1 { (i / q % 7) as u8 + 1 } else { 0 }).collect() }
        7 => (0..n).map(|i| (i.trailing_zeros() % 7) as u8).collect(), // ruler sequence: deep failure chains
        _ => { let h = n / 2; (0..n).map(|i| if i < h { 0 } else if i == h { 1 } else { 0 }).collect() }
    };
    if c.rng.chance(1, 3) { let i = c.rng.below(n); s[i] ^= 3 }
    op!(c, 5, [n, kind, k], "string kind {kind} of length {n}, parameter {k}");
    let v: Vec<Ch> = s.into_iter().map(Ch).collect();
    within(c, "prefix function", n, 6 * n as u64 + 16, || kmp(&v));
    within(c, "Z function", n, 6 * n as u64 + 16, || z_function(&v));
    c.nontrivial = n > 64;
}
fn trees(c: &mut Case) {
    let n = big(c).clamp(1, 1 << 16);
    let shape = (c.idx % SHAPES.len() as u64) as usize;
    let p = tree_parents(&mut c.rng, n, shape);
    // adjacency order decides which child comes first: random, children before parents, reversed
    let mut e: Vec<(usize, usize)> = (1..n).map(|i| (i, p[i])).collect();
    match c.rng.below(3) { 0 => c.rng.shuffle(&mut e), 1 => e.reverse(), _ => {} }
    let root = *c.rng.pick(&[0, 0, n - 1, n / 2]);
    let t: Tree = tree_from_edges(n, &e, root, SHAPES[shape]);
    op!(c, 6, [n, shape, root], "{} of {n} rooted at {root}", t.shape);
    let lg = log2(n);
    let init = vec![1u64; n];
    let mut h: HLD<AddSum> = within(c, "hld build", n, 12 * n as u64 + 64, || HLD::with_init_value(&t.g, root, &init));
    let path = (lg + 2) * (6 * lg + 12);
    for i in 0..16 {
        let deep = t.order[n - 1];
        let (u, v) = match i { 0 => (root, deep), 1 => (deep, t.order[n - 1 - n.min(2) / 2]), 2 => (deep, t.order[n / 2]), _ => (c.rng.below(n), *c.rng.pick(&[deep, root, n - 1, n / 2, 0])) };
        within(c, "hld path_prod", n, path, || h.path_prod(u, v));
        within(c, "hld apply_path", n, path, || h.apply_path(u, v, 2));
        within(c, "hld subtree_prod", n, 10 * (lg + 2), || h.subtree_prod(u));
        within(c, "hld apply_subtree", n, 10 * (lg + 2), || h.apply_subtree(v, 1));
        within(c, "hld get", n, 10 * (lg + 2), || h.get(u));
        within(c, "hld set", n, 10 * (lg + 2), || h.set(v, 1));
    }
    c.hit(t.shape);
    c.nontrivial = n > 64;
}

// ---------------------------------------------------------------- heap
struct Key(u64);
impl PartialEq for Key { fn eq(&self, o: &Key) -> bool { tick(); self.0 == o.0 } }
impl Eq for Key {}
impl PartialOrd for Key { fn partial_cmp(&self, o: &Key) -> Option<Ordering> { tick(); Some(self.0.cmp(&o.0)) } }
impl Ord for Key { fn cmp(&self, o: &Key) -> Ordering { tick(); self.0.cmp(&o.0) } }
fn heap(c: &mut Case) {
    let n = big(c);
    let kind = c.rng.below(4);
    op!(c, 7, [n, kind], "heap of {n}, key order {kind}");
    let mut h = MinHeap::new();
    for i in 0..n {
        let k = match kind { 0 => i as u64, 1 => (n - i) as u64, 2 => 7, _ => c.rng.u64() };
        within(c, "heap push", i, 4 * log2(i) + 16, || h.push(Key(k)));
    }
    for i in (n / 2..n).rev() {
        within(c, "heap peek", i, 4, || h.peek().map(|k| k.0));
        within(c, "heap pop", i, 6 * log2(i) + 16, || h.pop().map(|k| k.0));
        if i % 7 == 0 { within(c, "heap len", i, 2, || (h.len(), h.is_empty())); }
    }
    let m = n / 2;
    within(c, "heap sort", m, 6 * m as u64 * (log2(m) + 1) + 16, || h.into_sorted_vec().len());
    c.nontrivial = n > 64;
}

// ---------------------------------------------------------------- flow
#[derive(Clone, Copy)]
struct Cap(i64);
impl PartialEq for Cap { fn eq(&self, o: &Cap) -> bool { tick(); self.0 == o.0 } }
impl Eq for Cap {}
impl PartialOrd for Cap { fn partial_cmp(&self, o: &Cap) -> Option<Ordering> { tick(); Some(self.0.cmp(&o.0)) } }
impl Ord for Cap { fn cmp(&self, o: &Cap) -> Ordering { tick(); self.0.cmp(&o.0) } }
macro_rules! bin { ($($tr:ident $m:ident $tra:ident $ma:ident $op:tt),*) => {$(
    impl std::ops::$tr for Cap { type Output = Cap; fn $m(self, o: Cap) -> Cap { Cap(self.0 $op o.0) } }
    impl std::ops::$tra for Cap { fn $ma(&mut self, o: Cap) { self.0 = self.0 $op o.0 } }
)*} }
bin!(Add add AddAssign add_assign +, Sub sub SubAssign sub_assign -, Mul mul MulAssign mul_assign *, Div div DivAssign div_assign /, Rem rem RemAssign rem_assign %,
     BitOr bitor BitOrAssign bitor_assign |, BitAnd bitand BitAndAssign bitand_assign &, BitXor bitxor BitXorAssign bitxor_assign ^, Shl shl ShlAssign shl_assign <<, Shr shr ShrAssign shr_assign >>);
impl std::ops::Not for Cap { type Output = Cap; fn not(self) -> Cap { Cap(!self.0) } }
impl std::iter::Sum for Cap { fn sum<I: Iterator<Item = Cap>>(i: I) -> Cap { Cap(i.map(|x| x.0).sum()) } }
impl std::iter::Product for Cap { fn product<I: Iterator<Item = Cap>>(i: I) -> Cap { Cap(i.map(|x| x.0).product()) } }
macro_rules! fmts { ($($t:ident),*) => {$( impl std::fmt::$t for Cap { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { std::fmt::$t::fmt(&self.0, f) } } )*} }
fmts!(Display, Debug, Binary, Octal);
impl Zero for Cap { fn zero() -> Cap { Cap(0) } }
impl One for Cap { fn one() -> Cap { Cap(1) } }
impl BoundedBelow for Cap { fn min_value() -> Cap { Cap(i64::MIN) } }
impl BoundedAbove for Cap { fn max_value() -> Cap { Cap(i64::MAX) } }
impl Integral for Cap {}

/// (vertices, edges, source, sink, name)
fn network(c: &mut Case) -> (usize, Vec<(usize, usize, i64)>, usize, usize, &'static str) {
    let r = &mut c.rng;
    let mut e = vec![];
    let inf = 1_000_000_000i64;
    match r.below(8) {
        // a ladder of complete layers that ends nowhere, and a thin path of the same length beside it:
        // without per-vertex arc pointers a search walks width^depth dead ends
        0 => {
            let (w, l) = (r.range(2, 3), r.range(10, 40));
            let at = |i: usize, j: usize| 1 + i * w + j;
            let thin = 1 + l * w;
            let n = thin + l + 2;
            let t = n - 1;
            for j in 0..w { e.push((0, at(0, j), inf)) }
            for i in 0..l - 1 { for a in 0..w { for b in 0..w { e.push((at(i, a), at(i + 1, b), inf)) } } }
            let mut u = 0;
            for k in 0..l + 1 { e.push((u, thin + k, 1)); u = thin + k }
            e.push((u, t, 1));
            (n, e, 0, t, "dead-end ladder")
        }
        // the same, but many unit paths share the ladder's mouth
        1 => {
            let (l, k) = (r.range(5, 25), r.range(2, 10));
            let at = |i: usize, j: usize| 2 + i * 2 + j;
            let base = 2 + 2 * l;
            let n = base + k * l + 1;
            let t = n - 1;
            e.push((0, 1, inf));
            for j in 0..2 { e.push((1, at(0, j), inf)) }
            for i in 0..l - 1 { for a in 0..2 { for b in 0..2 { e.push((at(i, a), at(i + 1, b), inf)) } } }
            for q in 0..k { let mut u = 1; for i in 0..l { e.push((u, base + q * l + i, 1 + q as i64)); u = base + q * l + i } e.push((u, t, 1 + q as i64)) }
            (n, e, 0, t, "ladder with exits")
        }
        // complete layered network with random capacities: many phases and augmentations
        2 => {
            let (w, l) = (r.range(2, 6), r.range(2, 12));
            let n = w * l + 2;
            for j in 0..w { e.push((0, 1 + j, inf)); e.push((1 + (l - 1) * w + j, n - 1, inf)) }
            for i in 0..l - 1 { for a in 0..w { for b in 0..w { e.push((1 + i * w + a, 1 + (i + 1) * w + b, r.range(1, 1_000_000) as i64)) } } }
            (n, e, 0, n - 1, "layers")
        }
        // huge capacities over a unit bridge (the classical bad case of Ford-Fulkerson)
        3 => (4, vec![(0, 1, inf), (0, 2, inf), (1, 2, 1), (1, 3, inf), (2, 3, inf)], 0, 3, "bridge"),
        // few vertices, many parallel edges: augmentations must share a phase
        6 => {
            let (n, k) = (r.range(2, 5), r.range(50, 600));
            for i in 0..n - 1 { for q in 0..k { e.push((i, i + 1, 1 + (q % 3) as i64)) } }
            (n, e, 0, n - 1, "parallel")
        }
        // paths of every length: one phase per length
        4 => {
            let k = r.range(2, 25);
            let mut n = 2;
            for q in 1..=k { let mut u = 0; for _ in 0..q { e.push((u, n, 1)); u = n; n += 1 } e.push((u, 1, 1)) }
            (n, e, 0, 1, "lengths")
        }
        5 => {
            let a = r.range(2, 30);
            let n = 2 * a + 2;
            for i in 0..a { e.push((0, 1 + i, 1)); e.push((1 + a + i, n - 1, 1)) }
            for _ in 0..a * 4 { e.push((1 + r.below(a), 1 + a + r.below(a), 1)) }
            (n, e, 0, n - 1, "bipartite")
        }
        _ => {
            let n = r.range(2, 40);
            for _ in 0..r.below(6 * n) { e.push((r.below(n), r.below(n), r.range(0, 1000) as i64)) }
            (n, e, 0, n - 1, "random")
        }
    }
}
fn flow(c: &mut Case) {
    let (n, mut e, s, t, name) = network(c);
    if c.rng.chance(1, 3) { c.rng.shuffle(&mut e) }
    op!(c, 8, [n, e.len(), s, t], "{name}: {n} vertices, {} edges", e.len());
    c.hit(name);
    let mut d = Dinic::<Cap>::new(n);
    let cut = if c.rng.chance(1, 4) { e.len() / 2 } else { 0 };
    for (i, &(u, v, w)) in e.iter().enumerate() {
        if i == cut && cut > 0 { let m = i as u64; within(c, "max flow, half built", n, 8 * (n * n) as u64 * (m + 1) + 4096, || d.get_max_flow(s, t)); }
        d.add_edge(u, v, Cap(w));
        c.h((u * n + v) as u64 ^ (w as u64) << 32);
    }
    let m = e.len() as u64;
    within(c, "max flow", n, 8 * (n * n) as u64 * (m + 1) + 4096, || d.get_max_flow(s, t));
    // settled: one more search only
    within(c, "max flow again", n, 64 * (m + 1), || d.get_max_flow(s, t));
    c.nontrivial = m > 4;
}
/// no user-supplied operation to count here: the bound is on CPU time, a hundred times what a
/// quasi-linear algorithm needs and a fraction of what a quadratic one does
fn timed<R>(c: &mut Case, what: &'static str, n: usize, f: impl FnOnce() -> R) -> R {
    let t = cpu_ns();
    let r = f();
    let ms = (cpu_ns() - t) / 1_000_000;
    c.ops += 1;
    if c.verbose { let s = format!("{what} n={n}: {ms} ms"); c.push_log(s) }
    check!(c, ms <= 15_000, "{what} with n={n}: {ms} ms of CPU time, bound 15000");
    c.max(what, ms);
    c.hit(what);
    r
}
fn unaided(c: &mut Case) {
    let n = 120_000 + c.rng.below(20_000);
    let kind = c.idx % 9;
    limit_case(30);
    op!(c, 9, [n, kind], "cost without countable operations, kind {kind}, n={n}");
    c.nontrivial = true;
    match kind {
        0 => {
            // one path of links per element visited: a deep tree overflows the small stack
            let shape = c.rng.below(5);
            let mut r = c.rng.clone();
            op!(c, 10, [shape], "union-find, joins in shape {shape}");
            let res = timed(c, "union-find on a small stack", n, move || std::thread::Builder::new().stack_size(128 << 10).spawn(move || {
                let mut u = UnionFind::new(n);
                match shape {
                    0 => for i in 1..n { u.join(i - 1, i); },
                    1 => for i in (1..n).rev() { u.join(i, i - 1); },
                    2 => for i in 1..n { u.join(0, i); },
                    3 => for i in 1..n { u.join(i, 0); },
                    _ => {
                        let mut l: Vec<usize> = (0..n).collect();
                        while l.len() > 1 {
                            let mut next = vec![];
                            for q in l.chunks(2) { if q.len() == 2 { if r.chance(1, 2) { u.join(q[0], q[1]); } else { u.join(q[1], q[0]); } } next.push(u.find(q[0])) }
                            l = next;
                        }
                    }
                }
                (0..n).all(|i| u.is_same(i, n - 1 - i)) && u.size(n / 2) == n
            }).unwrap().join().unwrap());
            check!(c, res, "after joining everything, {} elements are not one set", n);
        }
        1 => {
            // a vertex whose distance falls n times before it is settled, and which has n neighbours
            let k = n;
            let mut g: Vec<Vec<(usize, usize)>> = vec![vec![]; 2 * k + 2];
            let x = k + 1;
            for i in 0..k { g[i].push((i + 1, 1)); g[i].push((x, 2 * (k - i) + 1)); g[x].push((k + 2 + i, 1 + i % 3)); }
            let d = timed(c, "dijkstra with many outdated entries", k, || dijkstra(&g, 0));
            check_eq!(c, d[x], Some(k + 2), "distance of the hub");
            check_eq!(c, d[k + 2], Some(k + 3), "distance beyond the hub");
        }
        2 => {
            let t = path_graph(n);
            let b = timed(c, "ancestor table of a path", n, || BinaryLifting::from(&t, 0));
            let qs: Vec<(usize, usize)> = (0..n).map(|_| (c.rng.below(n), c.rng.below(n))).collect();
            let ok = timed(c, "ancestor queries on a path", n, || qs.iter().all(|&(u, v)| b.lca(u, v) == u.min(v) && b.dis(u, v) == u.max(v) - u.min(v) && b.is_ancestor(u.min(v), u.max(v))));
            check!(c, ok, "wrong answers on the path of {}", n);
            // rooted inside: queries meet at the root, from both legs, and from a short leg
            let root = if c.rng.chance(1, 2) { n / 2 } else { c.rng.range(1, 40) };
            let b = timed(c, "ancestor table of a path", n, || BinaryLifting::from(&t, root));
            let qs: Vec<(usize, usize)> = (0..n).map(|_| (c.rng.below(root), c.rng.range(root + 1, n - 1))).collect();
            let ok = timed(c, "ancestor queries across the root", n, || qs.iter().all(|&(u, v)| b.lca(u, v) == root && b.lca(v, u) == root && b.dis(u, v) == v - u && !b.is_ancestor(u, v) && b.is_ancestor(root, v)));
            check!(c, ok, "wrong answers on the path of {} rooted at {}", n, root);
        }
        3 => {
            // long failure chains without a match on them
            let k = n / 2;
            let long = vec![b'a'; k];
            let ps: Vec<&[u8]> = vec![&long, b"b", b"ab"];
            let a = timed(c, "automaton of a long pattern", k, || AhoCorasick::<b'a', 2>::from(&ps));
            let mut text = vec![b'a'; n + k];
            for q in 0..3 { let i = c.rng.range(k, n); text[i + q] = b'b' }
            let f = timed(c, "single-result search", n, || a.find(&text));
            let cn = timed(c, "counting search", n, || a.find_cnt(&text));
            let al = timed(c, "full search", n, || a.find_all(&text));
            let mut run = 0;
            let mut w = vec![0; 3];
            for (i, &ch) in text.iter().enumerate() {
                let want: Vec<usize> = if ch == b'b' { let r = run; run = 0; if r > 0 { vec![2, 1] } else { vec![1] } } else { run += 1; if run >= k { vec![0] } else { vec![] } };
                for &x in &want { w[x] += 1 }
                let mut g = al[i].clone();
                g.sort_by(|x, y| y.cmp(x));
                check!(c, g == want && f[i] == want.first().copied(), "position {}: {:?} / {:?}, want {:?}", i, al[i], f[i], want);
            }
            check_eq!(c, cn, w, "counts");
        }
        4 => {
            let m = 3 * n;
            let text: String = (0..m).map(|i| if i % 7 == 0 { "5\n" } else { "12 " }).collect();
            let s = timed(c, "token reading", m, || { let mut i = In::new(&text); let mut s: Vec<i64> = i.vec(n); s.push(i.i64()); while let Some(x) = i.checked_read::<i64>() { s.push(x) } s });
            check!(c, s.len() == m && s.iter().enumerate().all(|(i, &x)| x == if i % 7 == 0 { 5 } else { 12 }), "{} tokens read wrongly", m);
        }
        6 => {
            // one set, pairs, singletons
            let w = [n, 2, 1][(c.idx / 9 % 3) as usize];
            let mut u = UnionFind::new(n);
            for i in 0..n { if i % w > 0 { u.join(i - 1, i); } }
            let g = timed(c, "listing the groups", n, || u.groups());
            let mut seen = vec![false; n];
            for part in &g { for &x in part { check!(c, !seen[x] && x / w == part[0] / w, "element {} listed wrongly", x); seen[x] = true } }
            check!(c, g.len() == n.div_ceil(w) && seen.iter().all(|x| *x), "{} groups of width {}", g.len(), w);
        }
        7 => {
            // a dead end is entered once per phase: u tries the k rights of a block whose lefts are all taken
            let k = 1200 + n % 100;
            let mut m = AugmentedPath::new(2 * k + 40, 2 * k);
            for i in 0..k { for j in 0..=i { m.add_edge(i, i - j) } }
            // lefts of the second block: each wants its own, then its successor's; the last has one spare
            for i in 0..k { m.add_edge(k + i, k + i); if i + 1 < k { m.add_edge(k + i, k + i + 1) } }
            for i in 0..40 { for j in 0..k { m.add_edge(2 * k + i, j) } m.add_edge(2 * k + i, k) }
            let got = timed(c, "matching among dead ends", k, || m.solve());
            check_eq!(c, got, 2 * k, "matching");
            let again = timed(c, "matching again", k, || m.solve());
            check_eq!(c, again, 2 * k, "matching, asked again");
        }
        8 => {
            let m = 8 * n;
            let f = timed(c, "factorial table", m, || Factorial::<Mod998244353>::new(m));
            check!(c, f.perm(m, m) * f.choose(m, m) == f.perm(m, m - 1), "m!/0! and m!/1! differ");
            let t = path_graph(n);
            let mut h = timed(c, "heavy paths of a path", n, || HLD::<AddSum>::new(&t, n / 3));
            let s = timed(c, "path updates on a path", n, || { for i in 0..n { h.apply_path(i, n - 1 - i, 1) } h.get(n / 2) });
            check_eq!(c, s, n as u64, "value in the middle");
        }
        _ => {
            // strong components: one long cycle with chords, and a long chain of small ones
            let g: Vec<Vec<usize>> = (0..2 * n).map(|i| if i < n { vec![(i + 1) % n, i / 2, n] } else { let mut v = vec![]; if i + 1 < 2 * n { v.push(i + 1) } if i % 3 == 1 && i > n { v.push(i - 1) } v }).collect();
            let (k, col) = timed(c, "strong components", 2 * n, || scc(&g));
            let pairs = (n + 1..2 * n).filter(|i| i % 3 == 1).count();
            check_eq!(c, k, 1 + n - pairs, "number of components");
            check!(c, col[..n].iter().all(|&x| x == k - 1), "the cycle is not the first component");
        }
    }
}
/// adjacency of the path 0 - 1 - ... - n-1
fn path_graph(n: usize) -> Vec<Vec<usize>> {
    (0..n).map(|i| { let mut v = vec![]; if i + 1 < n { v.push(i + 1) } if i > 0 { v.push(i - 1) } v }).collect()
}
fn main() {
    run(
        &[
            Workload { name: "segtree", quick: 7_500, thorough: 48_000, f: segtree },
            Workload { name: "lazy_segtree", quick: 5_000, thorough: 32_000, f: lazy },
            Workload { name: "fenwick", quick: 7_500, thorough: 48_000, f: fenwick },
            Workload { name: "sparse_table", quick: 750, thorough: 4_800, f: sparse },
            Workload { name: "strings", quick: 15_000, thorough: 80_000, f: strings },
            Workload { name: "hld", quick: 4_000, thorough: 24_000, f: trees },
            Workload { name: "heap", quick: 1_000, thorough: 4_000, f: heap },
            Workload { name: "unaided", quick: 36, thorough: 360, f: unaided },
            Workload { name: "flow", quick: 20_000, thorough: 240_000, f: flow },
        ],
        &["dead-end ladder", "ladder with exits", "layers", "bridge", "lengths", "parallel", "caterpillar", "broom", "path", "star", "segtree prod", "segtree max_right", "lazy apply_range", "fenwick search", "sparse get", "prefix function", "hld path_prod", "heap pop", "max flow", "union-find on a small stack", "dijkstra with many outdated entries", "ancestor queries on a path", "ancestor queries across the root", "single-result search", "listing the groups", "matching among dead ends", "factorial table", "heavy paths of a path", "token reading", "strong components"],
    )
}
