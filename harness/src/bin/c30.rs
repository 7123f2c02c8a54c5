//! C30 objects are independent, answers are a function of the object's own history, the library is silent.
//! Scripts (one object, its own generator, one call per step, the answer as text) are first run alone, each in
//! a process of its own whose streams are captured; then together in this process: one after another, interleaved
//! on one thread, called from inside each other's user-supplied operations, migrating between threads under a
//! random schedule, on free-running threads, and with several threads querying one object.
use rust_cp::data_structure::{fenwick_tree::FenwickTree, lazy_segtree::LazySegtree, min_heap::MinHeap, segtree::Segtree, sparse_table::SparseTable, union_find::UnionFind};
use rust_cp::graph::{binary_lifting::BinaryLifting, bipartite_matching::AugmentedPath, heavy_light_decomp::HLD, max_flow::Dinic, shortest_path::dijkstra, tarjan::scc};
use rust_cp::math::{factorial::Factorial, number_theory};
use rust_cp::misc::{input::In, modint::*, monoids::*, recursive_function::*, util};
use rust_cp::string::{aho_corasick::AhoCorasick, kmp::kmp, z_algorithm::z_function};
use rust_cp::traits::{integral::Integral, monoid::{MapMonoid, Monoid}};
use std::cell::RefCell;
use std::collections::HashSet;
use std::fmt::Debug;
use std::marker::PhantomData;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{mpsc, Arc, Barrier, Mutex};
use vmon::modmac::{residue, M101, M127, M1e9p9, M31m1, M7, M97};
use vmon::models::*;
use vmon::*;

type Step = Box<dyn FnMut() -> String + Send>;
type Query = Box<dyn Fn(usize) -> String + Send + Sync>;

// ------------------------------------------------------------- calls from inside user operations
struct Running {
    step: Step,
    left: usize,
    got: Vec<String>,
}
#[derive(Default)]
struct Nest {
    pool: Vec<Running>,
    countdown: usize,
    gap: usize,
    rng: Option<Rng>,
    done: u64,
}
thread_local! { static NEST: RefCell<Option<Nest>> = RefCell::new(None); }
/// called by every user-supplied operation: now and then another script takes a step, inside the library's call
fn nest() {
    let Some(mut s) = NEST.with(|n| n.borrow_mut().take()) else { return };
    if s.countdown > 0 {
        s.countdown -= 1;
    } else {
        let r = s.rng.as_mut().unwrap();
        s.countdown = r.below(s.gap);
        let live: Vec<usize> = (0..s.pool.len()).filter(|&i| s.pool[i].left > 0).collect();
        if !live.is_empty() {
            let i = *r.pick(&live);
            let x = &mut s.pool[i];
            x.left -= 1;
            let a = (x.step)();
            x.got.push(a);
            s.done += 1;
        }
    }
    NEST.with(|n| *n.borrow_mut() = Some(s));
}
/// M with a nested call in every operation
struct N<M>(PhantomData<M>);
impl<M: Monoid> Monoid for N<M> {
    type S = M::S;
    fn identity() -> M::S {
        nest();
        M::identity()
    }
    fn binary_operation(a: &M::S, b: &M::S) -> M::S {
        nest();
        M::binary_operation(a, b)
    }
}
struct NF<F>(PhantomData<F>);
impl<F: MapMonoid> MapMonoid for NF<F> {
    type M = N<F::M>;
    type F = F::F;
    fn identity_map() -> F::F {
        F::identity_map()
    }
    fn mapping(f: &F::F, x: &<F::M as Monoid>::S) -> <F::M as Monoid>::S {
        nest();
        F::mapping(f, x)
    }
    fn composition(f: &F::F, g: &F::F) -> F::F {
        nest();
        F::composition(f, g)
    }
}
#[derive(Clone, Copy, Debug)]
struct Key(i64);
impl PartialEq for Key {
    fn eq(&self, o: &Key) -> bool {
        nest();
        self.0 == o.0
    }
}
impl Eq for Key {}
impl PartialOrd for Key {
    fn partial_cmp(&self, o: &Key) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Key {
    fn cmp(&self, o: &Key) -> std::cmp::Ordering {
        nest();
        self.0.cmp(&o.0)
    }
}
struct Tok(String);
impl std::str::FromStr for Tok {
    type Err = ();
    fn from_str(s: &str) -> Result<Tok, ()> {
        nest();
        if s.starts_with('!') { Err(()) } else { Ok(Tok(s.into())) }
    }
}
/// commutative: (sum, count) with additions
struct Sum;
impl Monoid for Sum {
    type S = (i64, i64);
    fn identity() -> (i64, i64) {
        (0, 0)
    }
    fn binary_operation(a: &(i64, i64), b: &(i64, i64)) -> (i64, i64) {
        (a.0.wrapping_add(b.0), a.1 + b.1)
    }
}
struct SumAdd;
impl MapMonoid for SumAdd {
    type M = Sum;
    type F = i64;
    fn identity_map() -> i64 {
        0
    }
    fn mapping(f: &i64, x: &(i64, i64)) -> (i64, i64) {
        (x.0.wrapping_add(f.wrapping_mul(x.1)), x.1)
    }
    fn composition(f: &i64, g: &i64) -> i64 {
        f.wrapping_add(*g)
    }
}

// ------------------------------------------------------------- scripts
fn show<T: Debug>(v: T) -> String {
    let s = format!("{v:?}");
    if s.len() <= 90 {
        return s;
    }
    let h = s.bytes().fold(0u64, |a, b| mix(a ^ b as u64));
    format!("{}… {} bytes, hash {h:016x}", s.chars().take(40).collect::<String>(), s.len())
}
/// a call that is refused; the text of the refusal is not judged
fn refused<R: Debug>(f: impl FnOnce() -> R) -> String {
    match expect_panic(f) {
        Ok(_) => "refused".into(),
        Err(v) => format!("not refused: {v:?}"),
    }
}
fn lr(r: &mut Rng, n: usize) -> (usize, usize) {
    let (a, b) = (r.below(n + 1), r.below(n + 1));
    (a.min(b), a.max(b))
}
fn union_find(mut r: Rng, n: usize) -> Step {
    let mut u = UnionFind::new(n);
    Box::new(move || match r.below(9) {
        _ if n == 0 => format!("groups {:?}", u.groups()),
        0..=3 => { let (a, b) = (r.below(n), r.below(n)); format!("join({a},{b}) {}", u.join(a, b)) }
        4 => { let (a, b) = (r.below(n), r.below(n)); format!("is_same({a},{b}) {}", u.is_same(a, b)) }
        5 => { let (a, b) = (r.below(n), r.below(n)); format!("find({a}) {} find({b}) {}", u.find(a), u.find(b)) }
        6 => { let a = r.below(n); format!("size({a}) {}", u.size(a)) }
        7 => format!("size({n}) {}", refused(|| u.size(n))),
        _ => format!("groups {}", show(u.groups())),
    })
}
fn fenwick<T>(mut r: Rng, n: usize, f: fn(u64) -> T) -> Step
where T: Copy + Default + Debug + PartialOrd + std::ops::AddAssign<T> + std::ops::Add<Output = T> + std::ops::Sub<Output = T> + Send + 'static {
    let mut t = if r.chance(1, 2) { FenwickTree::new(n) } else { let v: Vec<T> = (0..n).map(|_| f(r.u64() % 50)).collect(); FenwickTree::from(&v) };
    Box::new(move || match r.below(6) {
        0 | 1 if n > 0 => { let (i, x) = (r.below(n), r.u64() % 50); t.add(i, f(x)); format!("add({i},{x})") }
        2 => { let (a, b) = lr(&mut r, n); format!("sum({a},{b}) {:?}", t.sum(a, b)) }
        3 => { let x = f(r.u64() % (25 * n as u64 + 1)); format!("search({x:?}) {}", t.search(&x)) }
        4 => { let k = f(r.u64() % 200); format!("partition_point(<= {k:?}) {}", t.partition_point(|x| { nest(); *x <= k })) }
        _ => { let i = r.below(n + 1); format!("pref({i}) {:?}", t.pref(i)) }
    })
}
fn seg<M: Monoid + 'static>(mut r: Rng, n: usize, g: fn(&mut Rng) -> M::S, accept: fn(&M::S, u64) -> bool) -> Step
where M::S: Debug + Send {
    let mut t: Segtree<M> = if r.chance(1, 3) { Segtree::new(n) } else { (0..n).map(|_| g(&mut r)).collect::<Vec<_>>().into() };
    Box::new(move || match r.below(9) {
        0 | 1 if n > 0 => { let (i, x) = (r.below(n), g(&mut r)); let s = format!("set({i},{})", show(&x)); t.set(i, x); s }
        2 if n > 0 => { let i = r.below(n); format!("get({i}) {}", show(t.get(i))) }
        3 => format!("all_prod {}", show(t.all_prod())),
        4 => { let (a, k) = (r.below(n + 1), r.u64()); format!("max_right({a}) {}", t.max_right(a, |x| { nest(); accept(x, k) })) }
        5 => { let (a, k) = (r.below(n + 1), r.u64()); format!("min_left({a}) {}", t.min_left(a, |x| { nest(); accept(x, k) })) }
        6 => format!("prod(1,0) {}", refused(|| t.prod(1, 0))),
        _ => { let (a, b) = lr(&mut r, n); format!("prod({a},{b}) {}", show(t.prod(a, b))) }
    })
}
fn lazy<F: MapMonoid + 'static>(mut r: Rng, n: usize, g: fn(&mut Rng) -> <F::M as Monoid>::S, h: fn(&mut Rng) -> F::F, accept: fn(&<F::M as Monoid>::S, u64) -> bool) -> Step
where <F::M as Monoid>::S: Debug + Send, F::F: Debug + Send {
    let mut t: LazySegtree<F> = if r.chance(1, 3) { LazySegtree::new(n) } else { (0..n).map(|_| g(&mut r)).collect::<Vec<_>>().into() };
    Box::new(move || match r.below(11) {
        0 | 1 => { let ((a, b), f) = (lr(&mut r, n), h(&mut r)); let s = format!("apply_range({a},{b},{})", show(&f)); t.apply_range(a, b, f); s }
        2 if n > 0 => { let (i, f) = (r.below(n), h(&mut r)); t.apply(i, f); format!("apply({i})") }
        3 if n > 0 => { let (i, x) = (r.below(n), g(&mut r)); t.set(i, x); format!("set({i})") }
        4 if n > 0 => { let i = r.below(n); format!("get({i}) {}", show(t.get(i))) }
        5 => format!("all_prod {}", show(t.all_prod())),
        6 => { let (a, k) = (r.below(n + 1), r.u64()); format!("max_right({a}) {}", t.max_right(a, |x| { nest(); accept(&x, k) })) }
        7 => { let (a, k) = (r.below(n + 1), r.u64()); format!("min_left({a}) {}", t.min_left(a, |x| { nest(); accept(&x, k) })) }
        8 => format!("prod(1,0) {}", refused(|| t.prod(1, 0))),
        _ => { let (a, b) = lr(&mut r, n); format!("prod({a},{b}) {}", show(t.prod(a, b))) }
    })
}
fn heap<T: Ord + Debug + Copy + Send + 'static>(mut r: Rng, n: usize, f: fn(u64) -> T) -> Step {
    let mut h = MinHeap::new();
    let mut o = MinHeap::with_capacity(r.below(8));
    let w = n as u64 + 2;
    Box::new(move || match r.below(10) {
        0..=3 => { let x = r.u64() % w; h.push(f(x)); format!("push {x}") }
        4 => { let x = r.u64() % w; o.push(f(x)); format!("other push {x}") }
        5 => format!("pop {:?} {:?}", h.pop(), o.pop()),
        6 => format!("peek {:?} len {} {}", h.peek(), h.len(), o.is_empty()),
        7 => { h.append(&mut o); format!("append: {} {}", h.len(), o.len()) }
        8 => { let v = std::mem::replace(&mut o, MinHeap::new()).into_sorted_vec(); format!("into_sorted_vec {}", show(v)) }
        _ if r.chance(1, 10) => { h.clear(); format!("clear: {:?}", h.pop()) }
        _ => format!("pop {:?}", h.pop()),
    })
}
fn sparse<T: Copy + Debug + Send + 'static>(mut r: Rng, n: usize, g: fn(&mut Rng) -> T, z: T, op: impl Fn(T, T) -> T + Send + 'static) -> Step {
    let v: Vec<T> = (0..n).map(|_| g(&mut r)).collect();
    let t = SparseTable::from(&v, z, op);
    Box::new(move || {
        let (a, b) = lr(&mut r, n);
        if a == b { format!("get({a},{b}) {}", refused(|| t.get(a, b))) } else { format!("get({a},{b}) {:?}", t.get(a, b)) }
    })
}
fn words<T: PartialEq + Send + 'static>(mut r: Rng, n: usize, f: fn(u64) -> T) -> Step {
    Box::new(move || {
        let len = r.below(2 * n + 1);
        let k = r.range(1, 3) as u64;
        let p = r.range(1, 5);
        let base: Vec<u64> = (0..p).map(|_| r.u64() % k).collect();
        let s: Vec<T> = (0..len).map(|i| f(if r.chance(1, 12) { r.u64() % k } else { base[i % p] })).collect();
        if r.chance(1, 2) { format!("kmp {}", show(kmp(&s))) } else { format!("z {}", show(z_function(&s))) }
    })
}
fn patterns(r: &mut Rng, off: u8, letters: usize, n: usize) -> Vec<Vec<u8>> {
    let k = r.range(1, letters.min(3));
    (0..r.below(n.min(30) + 1)).map(|_| (0..r.range(1, 6)).map(|_| off + r.below(k) as u8).collect()).collect()
}
fn aho_ask<const O: u8, const L: usize>(a: &AhoCorasick<O, L>, r: &mut Rng, n: usize) -> String {
    let k = r.range(1, L.min(3));
    let text: Vec<u8> = (0..r.below(2 * n + 2)).map(|_| O + r.below(k) as u8).collect();
    match r.below(3) {
        // among equal patterns any may be named, but always the same one
        0 => format!("find {}", show(a.find(&text))),
        1 => { format!("find_all {}", show(a.find_all(&text))) }
        _ => format!("find_cnt {}", show(a.find_cnt(&text))),
    }
}
fn aho<const O: u8, const L: usize>(mut r: Rng, n: usize) -> Step {
    let p = patterns(&mut r, O, L, n);
    let mut a: AhoCorasick<O, L> = AhoCorasick::new(p.len());
    let mut at = 0;
    Box::new(move || {
        if at < p.len() {
            at += 1;
            a.insert(&p[at - 1], at - 1);
            return format!("insert {:?}", p[at - 1]);
        }
        if at == p.len() {
            at += 1;
            a.build();
            return "build".into();
        }
        aho_ask(&a, &mut r, n)
    })
}
fn dinic<C: Integral + TryFrom<u32> + Send>(mut r: Rng, n: usize) -> Step {
    let n = n.min(60) + 2;
    let cap = |x: usize| C::try_from(x as u32).ok().unwrap();
    let mut d = Dinic::new(n);
    let mut left = r.range(1, 4 * n);
    Box::new(move || {
        if r.chance(1, 20) { return format!("flow({n},0) {}", refused(|| d.get_max_flow(n, 0))); }
        if left > 0 {
            left -= 1;
            let (a, b, c) = (r.below(n), r.below(n), r.below(30));
            d.add_edge(a, b, cap(c));
            return format!("arc {a} {b} {c}");
        }
        left = r.below(6);
        let s = r.below(n);
        let t = (s + 1 + r.below(n - 1)) % n;
        format!("flow({s},{t}) {}", d.get_max_flow(s, t))
    })
}
fn matching(mut r: Rng, n: usize) -> Step {
    let (a, b) = (r.range(1, n.min(80) + 1), r.range(1, n.min(80) + 1));
    let mut m = AugmentedPath::new(a, b);
    Box::new(move || if r.chance(1, 8) { format!("solve {}", m.solve()) } else { let (x, y) = (r.below(a), r.below(b)); m.add_edge(x, y); format!("edge {x} {y}") })
}
fn digraphs(mut r: Rng, n: usize) -> Step {
    Box::new(move || {
        let n = n.max(1);
        let g = gen::adj(n, &gen::digraph(&mut r, n, 3 * n));
        let (k, col) = scc(&g);
        format!("scc {k} {}", show(col))
    })
}
fn weighted(mut r: Rng, n: usize) -> Step {
    let n = n.max(1);
    let w = r.range(1, 100);
    let g: Vec<Vec<(usize, usize)>> = gen::adj(n, &gen::digraph(&mut r, n, 3 * n)).into_iter().map(|l| l.into_iter().map(|v| (v, r.below(w))).collect()).collect();
    Box::new(move || { let s = r.below(n); format!("dijkstra({s}) {}", show(dijkstra(&g, s))) })
}
fn lifting_ask(b: &BinaryLifting, r: &mut Rng, n: usize) -> String {
    let (u, v) = (r.below(n), r.below(n));
    match r.below(3) {
        0 => format!("lca({u},{v}) {}", b.lca(u, v)),
        1 => format!("dis({u},{v}) {}", b.dis(u, v)),
        _ => format!("is_ancestor({u},{v}) {} depth {}", b.is_ancestor(u, v), b.dep[u]),
    }
}
fn lifting(mut r: Rng, n: usize) -> Step {
    let n = n.max(1);
    let t = gen::tree(&mut r, n);
    let b = BinaryLifting::from(&t.g, t.root);
    Box::new(move || lifting_ask(&b, &mut r, n))
}
fn hld(mut r: Rng, n: usize) -> Step {
    let n = n.max(1);
    let t = gen::tree(&mut r, n);
    let mut h: HLD<NF<SumAdd>> = if r.chance(1, 3) { HLD::new(&t.g, t.root) } else { let v = (0..n).map(|_| (r.irange(-9, 9), 1)).collect(); HLD::with_init_value(&t.g, t.root, &v) };
    Box::new(move || {
        let (u, v) = (r.below(n), r.below(n));
        match r.below(6) {
            0 => { let x = r.irange(-9, 9); h.apply_path(u, v, x); format!("apply_path({u},{v},{x})") }
            1 => { let x = r.irange(-9, 9); h.apply_subtree(u, x); format!("apply_subtree({u},{x})") }
            2 => { let x = r.irange(-9, 9); h.set(u, (x, 1)); format!("set({u},{x})") }
            3 => format!("path_prod({u},{v}) {:?}", h.path_prod(u, v)),
            4 => format!("subtree_prod({u}) {:?}", h.subtree_prod(u)),
            _ => format!("get({u}) {:?}", h.get(u)),
        }
    })
}
fn residues<T: ModIntBase + Debug>(r: &mut Rng, a: T, val: fn(T) -> u32) -> (String, T) {
    let m = T::modulus();
    let b = T::raw(residue(r, m));
    let (s, x) = match r.below(8) {
        0 => ("+", a + b),
        1 => ("-", a - b),
        2 | 3 => ("*", a * b),
        4 => ("pow", a.pow(r.u64() >> r.below(60))),
        5 => ("new", T::new(r.u64() as i64)),
        6 => if number_theory::gcd(val(b) as i64, m as i64) == 1 { ("/", a / b) } else { return (format!("inv({b}) mod {m} {}", refused(|| b.inv())), a) },
        _ => ("-", -b),
    };
    (format!("{s} {b} mod {m}: {x} {x:?}"), x)
}
fn static_mod<M: Modulus + Send>(mut r: Rng, _: usize) -> Step {
    let mut a = StaticModInt::<M>::new(r.u64());
    Box::new(move || { let (s, x) = residues(&mut r, a, StaticModInt::val); a = x; s })
}
macro_rules! ids {
    ($($d:ident),*) => { $(
        #[derive(Copy, Clone, PartialEq, Eq)]
        enum $d {}
        impl Id for $d {
            fn companion_barrett() -> &'static Barrett { static B: Barrett = Barrett::new(998_244_353); &B }
        } )*
    };
}
ids!(D0, D1, D2, D3);
/// the run-time modulus is shared state by design: one script per identifier
fn dynamic<I: Id + Send>(mut r: Rng, _: usize) -> Step {
    let mut a = DynamicModInt::<I>::raw(0);
    let mut first = true;
    Box::new(move || {
        if first || r.chance(1, 25) {
            first = false;
            let m = modmac::modulus(&mut r);
            DynamicModInt::<I>::set_modulus(m);
            a = DynamicModInt::new(r.u64());
            return format!("set_modulus {m}: {a}");
        }
        if r.chance(1, 20) { return format!("set_modulus 0 {}", refused(|| DynamicModInt::<I>::set_modulus(0))); }
        let (s, x) = residues(&mut r, a, DynamicModInt::val);
        a = x;
        s
    })
}
fn factorial<M: Modulus + Send>(mut r: Rng, n: usize) -> Step {
    let n = n.min(M::VALUE as usize - 1);
    let mut f = Factorial::<M>::new(n);
    Box::new(move || {
        if r.chance(1, 12) { let k = r.below(n + 1); f = Factorial::new(k); return format!("new({k}) {}", f.choose(k, k / 2)); }
        match (r.below(n + 2), r.below(n + 2)) {
            (a, b) if r.chance(1, 2) => match expect_panic(|| f.choose(a, b)) { Ok(_) => format!("choose({a},{b}) refused"), Err(v) => format!("choose({a},{b}) {v}") },
            (a, b) => match expect_panic(|| f.perm(a, b)) { Ok(_) => format!("perm({a},{b}) refused"), Err(v) => format!("perm({a},{b}) {v}") },
        }
    })
}
fn number<T: Integral>(mut r: Rng, f: fn(u64) -> T, signed: bool) -> Step {
    Box::new(move || {
        let sh = r.below(31);
        let (a, b) = (f((r.u64() >> 34 >> sh) + 1), f((r.u64() >> 50) + 1));
        match r.below(3) {
            0 => format!("gcd({a},{b}) {}", number_theory::gcd(a, b)),
            1 => format!("lcm({a},{b}) {}", number_theory::lcm(a, b)),
            _ if !signed => format!("gcd({b},{a}) {}", number_theory::gcd(b, a)),
            _ => { let (x, y, g) = number_theory::ex_gcd(a, b); let _ = (x, y); format!("ex_gcd({a},{b}) {g}") }
        }
    })
}
fn crt(mut r: Rng, _: usize) -> Step {
    Box::new(move || {
        let k = r.range(0, 4);
        let x = r.irange(0, 100_000);
        let m: Vec<i64> = (0..k).map(|_| r.irange(1, 90)).collect();
        let a: Vec<i64> = m.iter().map(|_| r.irange(1, 60)).collect();
        let b: Vec<i64> = (0..k).map(|i| if r.chance(1, 6) { r.irange(0, m[i] - 1) } else { a[i] * x % m[i] }).collect();
        format!("ex_crt {a:?} {b:?} {m:?} {:?}", number_theory::ex_crt(&a, &b, &m))
    })
}
fn reader(mut r: Rng, n: usize) -> Step {
    let toks: Vec<String> = (0..8 * n + 8).map(|_| match r.below(8) { 0 => format!("!{}", r.below(9)), 1 => "zé漢".into(), _ => r.irange(-99, 99).to_string() }).collect();
    let sep = [" ", "\n", "\t ", "\u{3000}"];
    let s: &'static String = Box::leak(Box::new(toks.iter().map(|t| format!("{t}{}", r.pick(&sep))).collect()));
    let mut i = In::new(s);
    Box::new(move || match r.below(7) {
        0 => format!("i32 {}", expect_panic(|| i.i32()).map_or_else(|v| v.to_string(), |_| "refused".into())),
        1 => format!("i64 {}", expect_panic(|| i.i64()).map_or_else(|v| v.to_string(), |_| "refused".into())),
        2 => format!("chars {}", expect_panic(|| i.chars()).map_or_else(|v| format!("{v:?}"), |_| "refused".into())),
        3 => format!("bytes {}", expect_panic(|| i.bytes()).map_or_else(|v| format!("{v:?}"), |_| "refused".into())),
        4 => { let k = r.below(4); format!("vec({k}) {}", expect_panic(|| i.vec::<String>(k)).map_or_else(|v| format!("{v:?}"), |_| "refused".into())) }
        5 => format!("checked {}", expect_panic(|| i.checked_read::<Tok>()).map_or_else(|v| format!("{:?}", v.map(|t| t.0)), |_| "refused".into())),
        _ => format!("read {}", expect_panic(|| i.read::<Tok>()).map_or_else(|v| v.0, |_| "refused".into())),
    })
}
fn recursion(mut r: Rng, n: usize, arity: usize) -> Step {
    let (a, b) = (r.below(1000) as u64, r.below(5) as u64 + 1);
    let n = n.min(200) as u64;
    match arity {
        1 => {
            let mut f = RecursiveFunction::new(move |f: &mut dyn Callable<u64, u64>, x: u64| -> u64 {
                nest();
                if x < 2 { a.wrapping_add(x) } else { let y = f.call(x - 1); nest(); y.wrapping_mul(b).wrapping_add(if x % 7 == 0 { f.call(x / 4) } else { x }) }
            });
            Box::new(move || { let x = r.below(n as usize + 1) as u64; format!("call({x}) {}", f.call(x)) })
        }
        2 => {
            let mut f = RecursiveFunction2::new(move |f: &mut dyn Callable2<u64, u64, u64>, x: u64, y: u64| -> u64 {
                nest();
                if y == 0 { x.wrapping_add(a) } else { f.call(y, x % y).wrapping_mul(b) }
            });
            Box::new(move || { let (x, y) = (r.u64() >> 20, r.u64() >> 30); format!("call({x},{y}) {}", f.call(x, y)) })
        }
        _ => {
            let mut f = RecursiveFunction3::new(move |f: &mut dyn Callable3<usize, usize, usize, usize>, l: usize, h: usize, k: usize| -> usize {
                nest();
                if h - l <= 1 { l * k + a as usize } else { let m = (l + h) / 2; f.call(l, m, k) + f.call(m, h, k + b as usize) }
            });
            Box::new(move || { let (l, h) = lr(&mut r, n as usize); format!("call({l},{h}) {}", f.call(l, h, 1)) })
        }
    }
}
fn ready_made(mut r: Rng, _: usize) -> Step {
    Box::new(move || {
        let (a, b) = (r.u64() >> 33 >> r.below(30), r.u64() >> 33 >> r.below(30));
        match r.below(6) {
            0 => format!("max {} {}", Max::<i64>::binary_operation(&(a as i64), &-(b as i64)), Max::<i32>::identity()),
            1 => format!("min {} {}", Min::<u64>::binary_operation(&a, &b), Min::<u8>::identity()),
            2 => format!("sum {} {}", Additive::<u64>::binary_operation(&a, &b), Additive::<i8>::identity()),
            3 => format!("product {} {}", Multiplicative::<i64>::binary_operation(&(a as i64), &(b as i64)), Multiplicative::<u128>::identity()),
            4 => format!("lg({}) {}", a + 1, util::lg(a as usize + 1)),
            _ => format!("ceil_lg({}) {}", a as u32, util::ceil_lg(a as u32)),
        }
    })
}
/// objects whose user operation gives up half way; they are dropped, and nobody else may notice
fn accidents(mut r: Rng, n: usize) -> Step {
    struct Bad;
    impl Monoid for Bad {
        type S = u32;
        fn identity() -> u32 { 0 }
        fn binary_operation(a: &u32, b: &u32) -> u32 {
            if *a == 77 || *b == 77 { panic!("user operation gives up") }
            a + b
        }
    }
    impl MapMonoid for Bad {
        type M = Bad;
        type F = u32;
        fn identity_map() -> u32 { 0 }
        fn mapping(f: &u32, x: &u32) -> u32 { if *f == 77 { panic!("user map gives up") } else { x.wrapping_add(f % 5) } }
        fn composition(f: &u32, g: &u32) -> u32 { f + g }
    }
    let n = n.max(2);
    // equal letters are compared until one comparison gives up
    struct Shy<'a>(u8, &'a std::cell::Cell<u32>);
    impl PartialEq for Shy<'_> {
        fn eq(&self, o: &Self) -> bool {
            if self.1.get() == 0 { panic!("user equality gives up") }
            self.1.set(self.1.get() - 1);
            self.0 == o.0
        }
    }
    #[derive(Clone, Copy, Default, PartialEq, PartialOrd, Debug)]
    struct Full(u32);
    impl std::ops::AddAssign for Full { fn add_assign(&mut self, o: Full) { *self = *self + o } }
    impl std::ops::Add for Full { type Output = Full; fn add(self, o: Full) -> Full { if self.0 + o.0 > 2 * 77 { panic!("user addition gives up") } Full(self.0 + o.0) } }
    Box::new(move || match r.below(18) {
        5 => { let left = std::cell::Cell::new(r.below(2 * n) as u32); let s: Vec<Shy> = (0..n).map(|i| Shy((i % 3) as u8, &left)).collect(); let k = r.chance(1, 2); format!("words {}", refused(|| if k { kmp(&s) } else { z_function(&s) })) }
        6 | 7 => {
            // a vertex that does not exist, far from the source
            let mut g = gen::adj(n, &gen::digraph(&mut r, n, 3 * n));
            g[r.below(n)].push(n);
            let s = r.below(n);
            if r.chance(1, 2) { format!("components {}", refused(|| scc(&g))) } else { let g: Vec<Vec<(usize, usize)>> = g.iter().map(|l| l.iter().map(|v| (*v, 1 + v % 5)).collect()).collect(); format!("distances {}", refused(|| dijkstra(&g, s))) }
        }
        8 => {
            let t = gen::tree(&mut r, n);
            let mut g = t.g.clone();
            g[r.below(n)].push(n);
            if r.chance(1, 2) { format!("lifting {}", refused(|| BinaryLifting::from(&g, t.root).dep[0])) } else { format!("decomposition {}", refused(|| HLD::<NF<SumAdd>>::new(&g, t.root).pos)) }
        }
        9 => { let p = patterns(&mut r, b'a', 3, n); let k = r.below(3); format!("patterns {}", refused(|| { let mut a: AhoCorasick<b'a', 3> = AhoCorasick::new(p.len() + 1); for (i, x) in p.iter().enumerate() { a.insert(x, i) } if k == 0 { a.insert(b"", p.len()) } if k == 1 { a.insert(b"abz", p.len()) } a.build(); a.find_cnt(b"abacz") })) }
        10 => { let k = r.below(6); let s: String = (0..k).map(|i| format!("{i} ")).collect::<String>() + if r.chance(1, 2) { "x" } else { "" }; format!("tokens {}", refused(|| { let mut i = In::new(&s); i.vec::<u32>(k + 1) })) }
        11 => { let k = r.below(n); format!("prefix sums {}", refused(|| { let mut t = FenwickTree::from(&vec![Full(1); 40]); t.add(k % 40, Full(150)); t.pref(40) })) }
        12 => { let k = r.below(n); format!("sets {}", refused(|| { let mut u = UnionFind::new(n); u.join(0, k); u.join(1, n) })) }
        13 => { let k = r.below(n); format!("matching {}", refused(|| { let mut m = AugmentedPath::new(n, n); for i in 0..n { m.add_edge(i, (i * 7) % n) } m.add_edge(k, n); m.solve() })) }
        14 => { let k = r.below(n); format!("flow {}", refused(|| { let mut d = Dinic::<i64>::new(n); for i in 1..n { d.add_edge(i - 1, i, 5) } d.add_edge(k, n, 3); d.get_max_flow(0, n - 1) })) }
        15 => { let k = r.irange(1, 9); format!("congruences {}", refused(|| number_theory::ex_crt(&vec![1, 1, 1], &vec![k, 2, 1], &vec![7, k, 0]))) }
        16 => { let k = r.below(n); format!("table {}", refused(|| Factorial::<Mod998244353>::new(n).choose(k, k + 1).val())) }
        17 => { let k = r.u64(); format!("residue {}", refused(|| (ModInt1000000007::new(k) / ModInt1000000007::new(0)).val())) }
        0 => { let i = r.below(n); format!("segtree {}", refused(|| { let mut t: Segtree<Bad> = vec![1; n].into(); t.set(i, 77) })) }
        1 => { let mut v = vec![1; n]; v[r.below(n)] = 77; format!("segtree {}", refused(|| Segtree::<Bad>::from(v).all_prod())) }
        2 => { let i = r.below(n); format!("lazy {}", refused(|| { let mut t: LazySegtree<Bad> = vec![1; n].into(); t.apply_range(i, n, 77) })) }
        3 => { let v: Vec<i32> = (0..n as i32).collect(); let k = r.below(n) as i32; format!("sparse {}", refused(|| { let t = SparseTable::from(&v, 0, |a: i32, b: i32| if a == k || b == k { panic!("user operation gives up") } else { a.min(b) }); t.get(0, n) })) }
        4 => {
            let k = r.below(20) as u64;
            let mut f = RecursiveFunction::new(move |f: &mut dyn Callable<u64, u64>, x: u64| -> u64 { if x == 0 { panic!("user function gives up") } else { f.call(x - 1) } });
            format!("function {}", refused(|| f.call(k)))
        }
        _ => {
            #[derive(PartialEq, Eq, PartialOrd)]
            struct Moody(i32);
            impl Ord for Moody {
                fn cmp(&self, o: &Moody) -> std::cmp::Ordering {
                    if self.0 + o.0 == 77 { panic!("user comparison gives up") }
                    self.0.cmp(&o.0)
                }
            }
            let k = r.range(2, 38) as i32;
            format!("heap {}", refused(|| { let mut h = MinHeap::new(); h.push(Moody(k)); h.push(Moody(77 - k)); h.len() }))
        }
    })
}

const NAMES: &[&str] = &["union-find", "fenwick", "segtree", "lazy segtree", "heap", "sparse table", "kmp/z", "aho-corasick", "flow", "matching", "components", "shortest paths", "lifting", "decomposition", "static residues", "run-time residues", "factorials", "gcd family", "congruences", "reader", "recursion", "ready-made", "accidents"];
/// the variant picks type parameters
fn make(kind: usize, variant: usize, n: usize, seed: u64) -> Step {
    let r = Rng::new(seed);
    let v = variant;
    match kind {
        0 => union_find(r, n),
        1 => match v % 3 { 0 => fenwick::<i64>(r, n, |x| x as i64), 1 => fenwick::<u32>(r, n, |x| x as u32), _ => fenwick::<f64>(r, n, |x| x as f64) },
        2 => match v % 5 {
            0 => seg::<Max<i32>>(r, n, |r| r.irange(-50, 50) as i32, |x, k| *x <= (k % 60) as i32),
            1 => seg::<Additive<i64>>(r, n, |r| r.irange(0, 50), |x, k| *x <= (k % 300) as i64),
            2 => seg::<N<Aff>>(r, n, |r| (r.u64() % 1000, r.u64() % 1000), |_, _| true),
            3 => seg::<N<Free>>(r, n.min(60), |r| vec![r.below(9) as u16], |x, k| x.len() as u64 <= k % 20),
            _ => seg::<Min<u64>>(r, n, |r| r.u64() % 50, |x, k| *x >= k % 50),
        },
        3 => match v % 3 {
            0 => lazy::<NF<SeqAff>>(r, n, |r| leaf(r.u64() % 1000), |r| (r.u64() % 5, r.u64() % 9), |s, k| s.len <= k % 40),
            1 => lazy::<FreeAct>(r, n.min(24), |r| vec![(r.below(90) as u16, vec![])], |r| vec![r.below(90) as u16], |s, k| s.len() as u64 <= k % 20),
            _ => lazy::<SumAdd>(r, n, |r| (r.irange(0, 50), 1), |r| r.irange(-4, 9), |s, k| s.1 as u64 <= k % 40),
        },
        4 => match v % 3 { 0 => heap::<u32>(r, n, |x| x as u32), 1 => heap::<Key>(r, n, |x| Key(x as i64)), _ => heap::<i64>(r, n, |x| -(x as i64)) },
        5 => match v % 4 {
            0 => sparse::<i32>(r, n, |r| r.irange(-50, 50) as i32, 0, |a, b| a.min(b)),
            1 => sparse::<i32>(r, n, |r| r.irange(-50, 50) as i32, 0, |a, b| { nest(); a.max(b) }),
            2 => { let k = r.clone().u64() | 1; sparse::<u64>(r, n, |r| r.u64(), 0, move |a, b| { nest(); if a ^ k <= b ^ k { a } else { b } }) }
            _ => sparse::<u64>(r, n, |r| r.u64(), 0, |a, b| a | b),
        },
        6 => match v % 2 { 0 => words::<u8>(r, n, |x| x as u8), _ => words::<Key>(r, n, |x| Key(x as i64)) },
        7 => match v % 5 { 0 => aho::<b'a', 26>(r, n), 1 => aho::<b'0', 10>(r, n), 2 => aho::<0, 2>(r, n), 3 => aho::<b'A', 26>(r, n), _ => aho::<b'a', 3>(r, n) },
        8 => match v % 3 { 0 => dinic::<i32>(r, n), 1 => dinic::<u64>(r, n), _ => dinic::<i128>(r, n) },
        9 => matching(r, n),
        10 => digraphs(r, n),
        11 => weighted(r, n),
        12 => lifting(r, n),
        13 => hld(r, n),
        14 => match v % 4 { 0 => static_mod::<M7>(r, n), 1 => static_mod::<Mod998244353>(r, n), 2 => static_mod::<M31m1>(r, n), _ => static_mod::<modmac::M1e6>(r, n) },
        15 => match v % 5 { 0 => dynamic::<D0>(r, n), 1 => dynamic::<D1>(r, n), 2 => dynamic::<D2>(r, n), 3 => dynamic::<D3>(r, n), _ => dynamic::<DefaultId>(r, n) },
        16 => match v % 5 { 0 => factorial::<Mod998244353>(r, n), 1 => factorial::<M1e9p9>(r, n), 2 => factorial::<M97>(r, n), 3 => factorial::<M101>(r, n), _ => factorial::<M127>(r, n) },
        17 => match v % 4 { 0 => number::<i64>(r, |x| x as i64, true), 1 => number::<u64>(r, |x| x, false), 2 => number::<i128>(r, |x| x as i128, true), _ => number::<u128>(r, |x| x as u128, false) },
        18 => crt(r, n),
        19 => reader(r, n),
        20 => recursion(r, n, 1 + v % 3),
        21 => ready_made(r, n),
        _ => accidents(r, n),
    }
}
const SHARED: &[&str] = &["fenwick", "segtree", "sparse table", "aho-corasick", "lifting", "factorials", "heap", "lazy segtree", "matched words"];
/// an object that is only asked: query i always has the same arguments
fn make_shared(kind: usize, n: usize, seed: u64) -> Query {
    let mut r = Rng::new(seed);
    let at = move |i: usize| Rng::new(seed ^ mix(i as u64 + 1));
    let n = n.max(1);
    match kind {
        0 => { let v: Vec<i64> = (0..n).map(|_| r.irange(0, 50)).collect(); let t = FenwickTree::from(&v); Box::new(move |i| { let mut r = at(i); let (a, b) = lr(&mut r, n); let k = r.irange(0, 999); format!("sum({a},{b}) {} search({k}) {}", t.sum(a, b), t.search(&k)) }) }
        1 => { let t: Segtree<Aff> = (0..n).map(|_| (r.u64() % 99, r.u64() % 99)).collect::<Vec<_>>().into(); Box::new(move |i| { let mut r = at(i); let (a, b) = lr(&mut r, n); let w = t.prod(a, b); format!("prod({a},{b}) {w:?} get {:?} all {:?} right {}", t.get(a.min(n - 1)), t.all_prod(), t.max_right(a, |x| *x != w || w == (1, 0))) }) }
        2 => { let v: Vec<u64> = (0..n).map(|_| r.u64()).collect(); let t = SparseTable::from(&v, 0, |a: u64, b: u64| a.min(b)); Box::new(move |i| { let (a, b) = lr(&mut at(i), n); if a < b { format!("get({a},{b}) {}", t.get(a, b)) } else { String::new() } }) }
        3 => { let p = patterns(&mut r, b'a', 26, n); let q: Vec<&[u8]> = p.iter().map(|x| &x[..]).collect(); let a: AhoCorasick = AhoCorasick::from(&q); Box::new(move |i| aho_ask(&a, &mut at(i), n.min(100))) }
        4 => { let t = gen::tree(&mut r, n); let b = BinaryLifting::from(&t.g, t.root); Box::new(move |i| lifting_ask(&b, &mut at(i), n)) }
        5 => { let f = Factorial::<M1e9p9>::new(n); Box::new(move |i| { let (b, a) = lr(&mut at(i), n); format!("choose({a},{b}) {} perm {}", f.choose(a, b), f.perm(a, b)) }) }
        6 => { let mut h = MinHeap::new(); for _ in 0..n { h.push(r.u64()) } Box::new(move |_| format!("peek {:?} len {} {}", h.peek(), h.len(), h.is_empty())) }
        7 => { let t: LazySegtree<SeqAff> = (0..n).map(|_| leaf(r.u64() % 99)).collect::<Vec<_>>().into(); Box::new(move |_| format!("all {:?}", t.all_prod())) }
        _ => { let s: Vec<u8> = (0..n).map(|_| r.below(2) as u8).collect(); Box::new(move |i| { let (a, b) = lr(&mut at(i), n); format!("kmp {} z {}", show(kmp(&s[a..b])), show(z_function(&s[a..b]))) }) }
    }
}

// ------------------------------------------------------------- the reference: alone in a process
#[derive(Clone, PartialEq)]
struct Spec {
    kind: usize,
    variant: usize,
    n: usize,
    seed: u64,
    steps: usize,
}
impl Spec {
    fn text(&self) -> String {
        format!("{}:{}:{}:{}:{}", self.kind, self.variant, self.n, self.seed, self.steps)
    }
    fn parse(s: &str) -> Spec {
        let v: Vec<u64> = s.split(':').map(|x| x.parse().unwrap()).collect();
        Spec { kind: v[0] as usize, variant: v[1] as usize, n: v[2] as usize, seed: v[3], steps: v[4] as usize }
    }
    fn make(&self) -> Step {
        make(self.kind, self.variant, self.n, self.seed)
    }
    fn name(&self) -> String {
        format!("{} (variant {}, n {})", if self.kind < 100 { NAMES[self.kind] } else { SHARED[self.kind - 100] }, self.variant, self.n)
    }
}
fn child(s: &Spec) {
    install_hook();
    let mut out = String::new();
    if s.kind >= 100 {
        let q = make_shared(s.kind - 100, s.n, s.seed);
        for i in 0..s.steps { out += &format!("{:?}\n", q(i)) }
    } else {
        let mut f = s.make();
        for _ in 0..s.steps { out += &format!("{:?}\n", f()) }
    }
    print!("{out}");
}
fn alone(c: &mut Case, s: &Spec) -> Vec<String> {
    let out = std::process::Command::new(std::env::current_exe().unwrap()).env("C30_CHILD", s.text()).env("VMON_NOBT", "1").stdin(std::process::Stdio::null()).output().unwrap();
    let (so, se) = (String::from_utf8_lossy(&out.stdout).into_owned(), String::from_utf8_lossy(&out.stderr).into_owned());
    if !out.status.success() { violation(format!("{} alone: the process ended with {:?}: {se}", s.name(), out.status)) }
    check!(c, se.is_empty(), "{} alone: something was written to standard error: {se:?}", s.name());
    let v: Vec<String> = so.lines().map(|l| l.to_string()).collect();
    for l in &v { check!(c, l.starts_with('"') && l.ends_with('"'), "{} alone: something was written to standard output: {l:?}", s.name()) }
    check_eq!(c, v.len(), s.steps, "{} alone: lines on standard output", s.name());
    c.hit("scripts run alone in a process");
    v
}
fn specs(c: &mut Case) -> Vec<Spec> {
    let k = c.rng.range(2, 6);
    let common = c.size(400);
    let kind = c.rng.below(NAMES.len());
    let variant = c.rng.below(60);
    let style = c.rng.below(5);
    let mut v: Vec<Spec> = vec![];
    while v.len() < k {
        let mut s = Spec { kind, variant, n: common, seed: c.rng.u64() >> 1, steps: if c.rng.chance(1, 10) { c.rng.range(100, 400) } else { c.rng.range(2, 40) } };
        if style >= 2 { s.variant = c.rng.below(60) }
        if style >= 3 && c.rng.chance(2, 3) { s.kind = c.rng.below(NAMES.len()) }
        if c.rng.chance(1, 3) { s.n = c.size(400) }
        if style == 0 && !v.is_empty() && c.rng.chance(1, 2) { s = c.rng.pick(&v).clone() }
        // an identifier of run-time moduli belongs to one script at a time
        if s.kind == 15 { s.variant = (0..5).find(|i| !v.iter().any(|t| t.kind == 15 && t.variant == *i)).unwrap_or(9); if s.variant == 9 { s.kind = 14; s.variant = 0 } }
        v.push(s);
    }
    for s in &v { op!(c, 1, [s.kind, s.variant, s.n, s.seed, s.steps], "script {}: {}", s.text(), s.name()) }
    c.nontrivial = true;
    if v.windows(2).any(|w| w[0] == w[1]) { c.hit("identical twins") }
    if v.windows(2).any(|w| w[0].kind == w[1].kind && w[0].variant != w[1].variant) { c.hit("same component, other type parameters") }
    c.max("scripts at once", v.len() as u64);
    v
}
fn compare(c: &mut Case, what: &str, s: &Spec, got: &[String], want: &[String]) {
    check_eq!(c, got.len(), want.len(), "{what}: steps of {}", s.name());
    for (i, (g, w)) in got.iter().zip(want).enumerate() {
        check!(c, format!("{g:?}") == *w, "{what}: step {i} of {} [{}]: {g:?}, but alone in a process {w}", s.name(), s.text());
    }
}
fn references(c: &mut Case, v: &[Spec]) -> Vec<Vec<String>> {
    v.iter().map(|s| alone(c, s)).collect()
}

fn one_after_another(c: &mut Case) {
    let v = specs(c);
    let want = references(c, &v);
    for (s, w) in v.iter().zip(&want) {
        let mut f = s.make();
        let got: Vec<String> = (0..s.steps).map(|_| f()).collect();
        compare(c, "one after another", s, &got, w);
    }
}
fn interleaved(c: &mut Case) {
    let v = specs(c);
    let want = references(c, &v);
    let mut f: Vec<Option<Step>> = v.iter().map(|s| if c.rng.chance(1, 2) { Some(s.make()) } else { None }).collect();
    let mut got: Vec<Vec<String>> = vec![vec![]; v.len()];
    let burst = c.rng.range(1, 6);
    loop {
        let open: Vec<usize> = (0..v.len()).filter(|&i| got[i].len() < v[i].steps).collect();
        if open.is_empty() { break }
        let i = *c.rng.pick(&open);
        for _ in 0..c.rng.range(1, burst).min(v[i].steps - got[i].len()) {
            op!(c, 2, [i], "step of script {i}");
            let a = f[i].get_or_insert_with(|| v[i].make())();
            got[i].push(a);
        }
        // an object dropped early leaves the others alone
        if got[i].len() == v[i].steps { f[i] = None }
    }
    for i in 0..v.len() { compare(c, "interleaved on one thread", &v[i], &got[i], &want[i]) }
}
fn nested(c: &mut Case) {
    let mut v = specs(c);
    // the outer ones have user-supplied operations
    let outer = [2, 3, 4, 5, 6, 13, 20, 19, 1];
    v[0].kind = *c.rng.pick(&outer);
    v[0].variant = match v[0].kind { 2 => c.rng.range(2, 3), 3 => 0, 4 | 6 => 1, 5 => c.rng.range(1, 2), _ => v[0].variant };
    let want = references(c, &v);
    let pool = v[1..].iter().map(|s| Running { step: s.make(), left: s.steps, got: vec![] }).collect();
    let gap = c.rng.range(1, 12);
    NEST.with(|n| *n.borrow_mut() = Some(Nest { pool, countdown: 0, gap, rng: Some(Rng::new(c.rng.u64())), done: 0 }));
    let mut f = v[0].make();
    let got: Vec<String> = (0..v[0].steps).map(|_| f()).collect();
    let mut s = NEST.with(|n| n.borrow_mut().take()).unwrap_or_else(|| violation("a nested call never came back".into()));
    compare(c, "with calls inside its user operations", &v[0], &got, &want[0]);
    for (i, x) in s.pool.iter_mut().enumerate() {
        while x.left > 0 { x.left -= 1; let a = (x.step)(); x.got.push(a) }
        compare(c, "called from inside another object's user operations", &v[i + 1], &x.got, &want[i + 1]);
    }
    for _ in 0..s.done.min(1) { c.hit("calls made inside user operations") }
    c.max("calls made inside one script's user operations", s.done);
}
fn migrating(c: &mut Case) {
    let v = specs(c);
    let want = references(c, &v);
    type Job = (usize, Option<Step>, Spec, usize);
    let (back, results) = mpsc::channel::<Result<(usize, Step, Vec<String>), String>>();
    let workers = c.rng.range(2, 4);
    let mut ends = vec![];
    let mut send = vec![];
    for _ in 0..workers {
        let (tx, rx) = mpsc::channel::<Job>();
        let back = back.clone();
        ends.push(std::thread::Builder::new().stack_size(64 << 20).spawn(move || for (i, f, s, k) in rx {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { let mut f = f.unwrap_or_else(|| s.make()); let a = (0..k).map(|_| f()).collect(); (i, f, a) }));
            let r = r.map_err(|p| p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default());
            if back.send(r).is_err() { break }
        }).unwrap());
        send.push(tx);
    }
    let mut f: Vec<Option<Step>> = v.iter().map(|_| None).collect();
    let mut got: Vec<Vec<String>> = vec![vec![]; v.len()];
    let mut moves = 0;
    loop {
        let open: Vec<usize> = (0..v.len()).filter(|&i| got[i].len() < v[i].steps).collect();
        if open.is_empty() { break }
        let i = *c.rng.pick(&open);
        let w = c.rng.below(workers);
        let k = c.rng.range(1, 5).min(v[i].steps - got[i].len());
        op!(c, 3, [i, w, k], "script {i} takes {k} steps on thread {w}");
        send[w].send((i, f[i].take(), v[i].clone(), k)).unwrap();
        match results.recv().unwrap() {
            Ok((i, g, a)) => { f[i] = Some(g); got[i].extend(a) }
            Err(e) => violation(format!("migrating between threads: {} panicked: {e}", v[i].name())),
        }
        moves += 1;
    }
    drop(send);
    for e in ends { e.join().unwrap() }
    c.max("hand-overs between threads in one case", moves);
    for i in 0..v.len() { compare(c, "handed from thread to thread", &v[i], &got[i], &want[i]) }
}
static SEEN: Mutex<Option<HashSet<u64>>> = Mutex::new(None);
fn free(c: &mut Case) {
    let v = specs(c);
    let want = references(c, &v);
    let gate = Barrier::new(v.len());
    let clock = AtomicU64::new(0);
    let jitter = c.rng.below(3);
    let res: Vec<Result<(Vec<String>, Vec<u64>), String>> = std::thread::scope(|sc| {
        let hs: Vec<_> = v.iter().enumerate().map(|(i, s)| {
            let (gate, clock, mut r) = (&gate, &clock, Rng::new(c.rng.u64() ^ i as u64));
            std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(sc, move || {
                gate.wait();
                let mut f = s.make();
                let mut order = vec![];
                let a = (0..s.steps).map(|_| {
                    match jitter { 1 if r.chance(1, 4) => std::thread::yield_now(), 2 => for _ in 0..r.below(300) { std::hint::spin_loop() }, _ => {} }
                    order.push(clock.fetch_add(1, Ordering::Relaxed));
                    f()
                }).collect();
                (a, order)
            }).unwrap()
        }).collect();
        hs.into_iter().map(|h| h.join().map_err(|p| p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default())).collect()
    });
    let mut seq: Vec<(u64, usize)> = vec![];
    for (i, x) in res.iter().enumerate() {
        match x {
            Ok((a, o)) => { compare(c, "on free-running threads", &v[i], a, &want[i]); seq.extend(o.iter().map(|t| (*t, i))) }
            Err(e) => violation(format!("on free-running threads: {} panicked: {e}", v[i].name())),
        }
    }
    seq.sort();
    let switches = seq.windows(2).filter(|w| w[0].1 != w[1].1).count();
    let h = seq.iter().fold(0u64, |a, b| mix(a ^ b.1 as u64));
    let n = { let mut s = SEEN.lock().unwrap(); let s = s.get_or_insert_with(HashSet::new); s.insert(h); s.len() };
    c.max("distinct interleavings observed on free-running threads (one process)", n as u64);
    c.max("switches observed in one case", switches as u64);
    if switches > v.len() { c.hit("free-running scripts overlapped") }
}
fn shared(c: &mut Case) {
    let s = Spec { kind: 100 + c.rng.below(SHARED.len()), variant: 0, n: c.size(600), seed: c.rng.u64() >> 1, steps: c.rng.range(5, 60) };
    op!(c, 4, [s.kind, s.n, s.seed, s.steps], "shared {}: {}", s.text(), s.name());
    let want = alone(c, &s);
    let q: Arc<Query> = Arc::new(make_shared(s.kind - 100, s.n, s.seed));
    let t = c.rng.range(2, 5);
    let gate = Arc::new(Barrier::new(t));
    let hs: Vec<_> = (0..t).map(|k| {
        let (q, gate, mut r, steps) = (q.clone(), gate.clone(), Rng::new(c.rng.u64() ^ k as u64), s.steps);
        std::thread::spawn(move || { gate.wait(); (0..3 * steps).map(|_| { let i = r.below(steps); (i, q(i)) }).collect::<Vec<_>>() })
    }).collect();
    for h in hs {
        match h.join() {
            Ok(a) => for (i, g) in a { check!(c, format!("{g:?}") == want[i], "{} asked by several threads, query {i}: {g:?}, but alone in a process {}", s.name(), want[i]) },
            Err(_) => violation(format!("{} asked by several threads: a query panicked", s.name())),
        }
    }
    c.nontrivial = true;
    c.hit("objects asked by several threads");
}
/// the same scripts in any build: the runner compares the output of the builds
fn digests(seed: u64, count: u64) {
    install_hook();
    let mut r = Rng::new(seed);
    for k in 0..count {
        let kind = k as usize % NAMES.len();
        let s = Spec { kind, variant: if kind == 15 { r.below(5) } else { r.below(60) }, n: { let b = r.below(9); r.below(1 << b) }, seed: r.u64() >> 1, steps: r.range(2, 60) };
        let mut f = s.make();
        for i in 0..s.steps { println!("{} step {i}: {:?}", s.text(), f()) }
    }
}
fn main() {
    if let Ok(v) = std::env::var("C30_CHILD") {
        return child(&Spec::parse(&v));
    }
    if let Ok(v) = std::env::var("C30_DIGESTS") {
        let (a, b) = v.split_once(',').unwrap();
        return digests(a.parse().unwrap(), b.parse().unwrap());
    }
    std::env::set_var("VMON_NOBT", "1");
    run(
        &[
            Workload { name: "one-after-another", quick: 700, thorough: 9000, f: one_after_another },
            Workload { name: "interleaved", quick: 700, thorough: 8000, f: interleaved },
            Workload { name: "nested", quick: 700, thorough: 8000, f: nested },
            Workload { name: "migrating", quick: 400, thorough: 4000, f: migrating },
            Workload { name: "free", quick: 700, thorough: 8000, f: free },
            Workload { name: "shared", quick: 500, thorough: 4000, f: shared },
        ],
        &["scripts run alone in a process", "identical twins", "same component, other type parameters", "calls made inside user operations", "free-running scripts overlapped", "objects asked by several threads"],
    )
}
