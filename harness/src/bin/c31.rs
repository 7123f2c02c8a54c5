//! C31 memory: what an object holds is bounded by the size of its content, whatever the number of calls; calls use
//! bounded temporaries; everything is given back. Observed by a counting allocator.
use rust_cp::data_structure::{fenwick_tree::FenwickTree, lazy_segtree::LazySegtree, min_heap::MinHeap, segtree::Segtree, sparse_table::SparseTable, union_find::UnionFind};
use rust_cp::graph::{binary_lifting::BinaryLifting, bipartite_matching::AugmentedPath, heavy_light_decomp::HLD, max_flow::Dinic, shortest_path::dijkstra, tarjan::scc};
use rust_cp::math::{factorial::Factorial, number_theory};
use rust_cp::misc::{input::In, modint::*, monoids::*, recursive_function::*};
use rust_cp::string::{aho_corasick::AhoCorasick, kmp::kmp, z_algorithm::z_function};
use rust_cp::traits::monoid::{MapMonoid, Monoid};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use vmon::modmac::M1e9p9;
use vmon::*;

struct Counting;
thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static CALLS: Cell<u64> = const { Cell::new(0) };
}
fn moved(by: i64) {
    let _ = LIVE.try_with(|l| {
        let v = l.get() + by;
        l.set(v);
        let _ = PEAK.try_with(|p| if v > p.get() { p.set(v) });
    });
    let _ = CALLS.try_with(|c| c.set(c.get() + 1));
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() { moved(l.size() as i64) }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = System.alloc_zeroed(l);
        if !p.is_null() { moved(l.size() as i64) }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l);
        moved(-(l.size() as i64));
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = System.realloc(p, l, n);
        // old and new exist together while the content is copied
        if !q.is_null() { moved(n as i64); moved(-(l.size() as i64)) }
        q
    }
}
#[global_allocator]
static A: Counting = Counting;
fn live() -> i64 { LIVE.with(|l| l.get()) }
fn allocations() -> u64 { CALLS.with(|c| c.get()) }

/// every bound: so many times the natural size, plus a constant
const FACTOR: usize = 8;
const SLACK: usize = 4096;
/// an object (or a function's results): `size` is its natural size in bytes after the calls so far
struct Subject<'a> {
    name: &'static str,
    /// natural size, changed by the calls where the content grows
    size: usize,
    /// one call; returns the natural size of its result and of its working space
    call: Box<dyn FnMut(&mut Rng, &mut usize) -> usize + 'a>,
}
/// `make` builds the object from inputs that exist already; the result owns the object
fn watch<'a>(c: &mut Case, name: &'static str, n: usize, calls: usize, make: impl FnOnce() -> Subject<'a>) -> i64 {
    let mut r = Rng::new(c.rng.u64());
    let base = live();
    PEAK.with(|p| p.set(base));
    let mut s = make();
    let own = 256; // the boxed closure and what it captured by value
    let after = live() - base;
    let allow = |x: usize| (FACTOR * x + SLACK + own) as i64;
    op!(c, 1, [name.bytes().fold(0u64, |a, b| mix(a ^ b as u64)), n, calls], "{name}: n = {n}, {calls} calls, natural size {}", s.size);
    check!(c, after <= allow(s.size), "{} on {n} elements holds {after} bytes, {} would be its natural size", s.name, s.size);
    let pk = PEAK.with(|p| p.get()) - base;
    check!(c, pk <= 2 * allow(s.size), "building {} on {n} elements took {pk} bytes at its peak, {} would be its natural size", s.name, s.size);
    c.max("bytes held by one object", after as u64);
    let mut worst = 0;
    for k in 0..calls {
        let before = live();
        PEAK.with(|p| p.set(before));
        let temp = (s.call)(&mut r, &mut s.size);
        let (now, pk) = (live() - base, PEAK.with(|p| p.get()) - before);
        worst = worst.max(now);
        check!(c, now <= allow(s.size), "{} on {n} elements holds {now} bytes after {} calls, {} would be its natural size", s.name, k + 1, s.size);
        check!(c, pk <= allow(s.size + temp), "call {} of {} on {n} elements took {pk} further bytes, {} would be natural", k + 1, s.name, s.size + temp);
    }
    c.ops += calls as u64;
    drop(s);
    let left = live() - base;
    c.max("calls on one object", calls as u64);
    c.max("bytes held after calls", worst as u64);
    left
}
struct AddMax;
struct SumLen;
impl Monoid for SumLen {
    type S = (i64, i64);
    fn identity() -> (i64, i64) { (0, 0) }
    fn binary_operation(a: &(i64, i64), b: &(i64, i64)) -> (i64, i64) { (a.0.wrapping_add(b.0), a.1 + b.1) }
}
impl MapMonoid for AddMax {
    type M = SumLen;
    type F = i64;
    fn identity_map() -> i64 { 0 }
    fn mapping(f: &i64, x: &(i64, i64)) -> (i64, i64) { (x.0.wrapping_add(f.wrapping_mul(x.1)), x.1) }
    fn composition(f: &i64, g: &i64) -> i64 { f.wrapping_add(*g) }
}
fn lr(r: &mut Rng, n: usize) -> (usize, usize) {
    let (a, b) = (r.below(n + 1), r.below(n + 1));
    (a.min(b), a.max(b))
}
fn lg(n: usize) -> usize { (usize::BITS - n.leading_zeros()) as usize + 1 }
fn keep<T>(x: T) -> T { std::hint::black_box(x) }

const KINDS: u64 = 22;
/// returns what is still allocated after the object is gone
fn one(c: &mut Case, kind: u64, n: usize, calls: usize) -> i64 {
    let mut g = Rng::new(c.rng.u64());
    let n1 = n.max(1);
    match kind {
        0 => watch(c, "union-find", n, calls, || {
            let mut u = UnionFind::new(n);
            Subject { name: "union-find", size: 16 * n, call: Box::new(move |r, _| {
                if n == 0 { return 0 }
                let (a, b) = (r.below(n), r.below(n));
                match r.below(if n > 2000 { 400 } else { 8 }) { 0 => { keep(u.groups()); 96 * n } 1 => { keep(u.size(a)); 0 } 2 => { keep(u.is_same(a, b)); 0 } 3 => { keep(u.find(b)); 0 } _ => { keep(u.join(a, b)); 0 } }
            }) }
        }),
        1 => { let v: Vec<i64> = (0..n).map(|_| g.irange(0, 9)).collect(); watch(c, "fenwick", n, calls, || {
            let mut t = if n % 2 == 0 { FenwickTree::from(&v) } else { FenwickTree::new(n) };
            Subject { name: "fenwick tree", size: 8 * n, call: Box::new(move |r, _| {
                let (a, b) = lr(r, n);
                match r.below(4) { 0 if n > 0 => t.add(r.below(n), 3), 1 => { keep(t.pref(b)); } 2 => { keep(t.search(&(r.below(9 * n + 1) as i64))); } _ => { keep(t.sum(a, b)); } }
                0
            }) }
        }) }
        2 => { let v: Vec<i64> = (0..n).map(|_| g.irange(0, 9)).collect(); watch(c, "segtree", n, calls, || {
            let mut t: Segtree<Max<i64>> = v.into();
            Subject { name: "segment tree", size: 32 * n1, call: Box::new(move |r, _| {
                let (a, b) = lr(r, n);
                let k = r.irange(0, 9);
                match r.below(6) { 0 | 1 if n > 0 => t.set(r.below(n), k), 2 => { keep(t.max_right(a, |x| *x <= k)); } 3 => { keep(t.min_left(b, |x| *x <= k)); } 4 => { keep(t.all_prod()); } _ => { keep(t.prod(a, b)); } }
                0
            }) }
        }) }
        3 => { let v: Vec<(i64, i64)> = (0..n).map(|_| (g.irange(0, 9), 1)).collect(); watch(c, "lazy segtree", n, calls, || {
            let mut t: LazySegtree<AddMax> = v.into();
            Subject { name: "lazy segment tree", size: 80 * n1, call: Box::new(move |r, _| {
                let (a, b) = lr(r, n);
                let k = r.irange(0, 9);
                match r.below(8) { 0 if n > 0 => t.set(r.below(n), (k, 1)), 1 if n > 0 => t.apply(r.below(n), k), 2 => t.apply_range(a, b, k), 3 if n > 0 => { keep(t.get(r.below(n))); } 4 => { keep(t.max_right(a, |x| x.1 <= k)); } 5 => { keep(t.min_left(b, |x| x.1 <= k)); } 6 => { keep(t.all_prod()); } _ => { keep(t.prod(a, b)); } }
                0
            }) }
        }) }
        4 => watch(c, "heap", n, calls, || {
            let mut h = MinHeap::new();
            let mut o = MinHeap::with_capacity(n / 4);
            for i in 0..n { h.push(g.below(i + 1) as u64) }
            let mut most = n;
            let rarely = if g.chance(1, 2) { 3 } else { 200 };
            Subject { name: "heap", size: 8 * n + 2 * n, call: Box::new(move |r, size| {
                match r.below(12) {
                    0..=2 => h.push(r.u64() >> 40),
                    3 => o.push(r.u64() >> 40),
                    4..=6 => { keep(h.pop()); }
                    7 => { keep(h.peek()); }
                    8 => h.append(&mut o),
                    9 => { let x = std::mem::replace(&mut o, MinHeap::new()).into_sorted_vec(); keep(x.len()); }
                    10 if r.chance(1, rarely) => h.clear(),
                    _ => { keep((h.len(), o.is_empty(), o.pop())); }
                }
                most = most.max(h.len() + o.len());
                *size = 10 * most;
                16 * most
            }) }
        }),
        5 => { let v: Vec<u32> = (0..n).map(|_| g.u64() as u32).collect(); watch(c, "sparse table", n, calls, || {
            let t = SparseTable::from(&v, 0, |a: u32, b: u32| a.min(b));
            Subject { name: "sparse table", size: (4 * n + 24) * lg(n), call: Box::new(move |r, _| { let (a, b) = lr(r, n); if a < b { keep(t.get(a, b)); } 0 }) }
        }) }
        6 => { let s: Vec<u8> = (0..n).map(|_| g.below(2) as u8).collect(); watch(c, "prefix functions", n, calls.min(40_000_000 / n1), || {
            Subject { name: "prefix functions", size: 0, call: Box::new(move |r, _| { if r.chance(1, 2) { keep(kmp(&s)); } else { keep(z_function(&s)); } 8 * n }) }
        }) }
        7 => {
            let k = g.range(1, 20);
            let letters = g.range(1, 4);
            let pats: Vec<Vec<u8>> = (0..k).map(|i| (0..1 + if n < 100 { g.below(5) } else { n / k + i }).map(|_| b'a' + g.below(letters) as u8).collect()).collect();
            let q: Vec<&[u8]> = pats.iter().map(|x| &x[..]).collect();
            let total: usize = q.iter().map(|x| x.len()).sum();
            let text: Vec<u8> = (0..200).map(|_| b'a' + g.below(letters) as u8).collect();
            watch(c, "aho-corasick", n, calls.min(20_000), || {
                let a: AhoCorasick = AhoCorasick::from(&q);
                Subject { name: "pattern automaton", size: (26 * 8 + 80) * (total + 1), call: Box::new(move |r, _| {
                    let (x, y) = lr(r, 200);
                    match r.below(3) { 0 => { keep(a.find(&text[x..y])); 16 * 200 } 1 => { keep(a.find_all(&text[x..y])); (24 + 8 * k) * 200 } _ => { keep(a.find_cnt(&text[x..y])); 8 * k } }
                }) }
            })
        }
        8 => { let e = gen::digraph(&mut g, n + 2, 4 * n + 4); watch(c, "flow", n, calls.min(if n > 100 { 2_000_000 / n } else { calls }), || {
            let mut d = Dinic::<i64>::new(n + 2);
            for (i, (a, b)) in e.iter().enumerate() { d.add_edge(*a, *b, (i % 10) as i64) }
            Subject { name: "flow network", size: 64 * (n + 2) + 64 * e.len(), call: Box::new(move |r, _| { let s = r.below(n + 2); let t = (s + 1 + r.below(n + 1)) % (n + 2); keep(d.get_max_flow(s, t)); 16 * n + 64 }) }
        }) }
        9 => { let e: Vec<(usize, usize)> = (0..2 * n1).map(|_| (g.below(n1), g.below(n1))).collect(); watch(c, "matching", n, calls.min(if n > 100 { 500_000 / n } else { calls }), || {
            let mut m = AugmentedPath::new(n1, n1);
            for (a, b) in e { m.add_edge(a, b) }
            let mut left = 2 * n1;
            let mut edges = 2 * n1;
            Subject { name: "matching", size: 60 * n1 + 16 * 2 * n1, call: Box::new(move |r, size| { if left > 0 && r.chance(1, 3) { left -= 1; edges += 1; *size += 16; m.add_edge(r.below(n1), r.below(n1)); 16 * edges } else { keep(m.solve()); 16 * n1 } }) }
        }) }
        10 => { let far = g.chance(1, 3);
            // deep, with a distant leaf at every vertex that waits in the queue, and one cycle through all of the spine
            let h = (n1 / 2).clamp(1, 6000);
            let e = if far { (0..n1).map(|i| if i < h { (i, (i + 1) % h) } else { (i % h, i) }).collect() } else { gen::digraph(&mut g, n1, 3 * n1) }; let a = gen::adj(n1, &e); let w: Vec<Vec<(usize, usize)>> = a.iter().map(|l| l.iter().map(|v| (*v, if far && *v >= h { 1_000_000 } else { (v * 7) % 13 })).collect()).collect(); watch(c, "components and distances", n, calls.min(4_000_000 / n1), || {
            Subject { name: "components and distances", size: 0, call: Box::new(|r, _| { if r.chance(1, 2) { keep(scc(&a)); 96 * n1 + 8 * e.len() } else { keep(dijkstra(&w, r.below(n1))); 24 * n1 + 24 * e.len() } }) }
        }) }
        11 => { let t = gen::tree(&mut g, n1); watch(c, "lifting", n, calls, || {
            let b = BinaryLifting::from(&t.g, t.root);
            Subject { name: "ancestor table", size: (8 * lg(n1) + 48) * n1, call: Box::new(move |r, _| { let (u, v) = (r.below(n1), r.below(n1)); keep((b.lca(u, v), b.dis(u, v), b.is_ancestor(u, v))); 0 }) }
        }) }
        12 => { let t = gen::tree(&mut g, n1); let v: Vec<(i64, i64)> = (0..n1).map(|_| (1, 1)).collect(); watch(c, "decomposition", n, calls, || {
            let mut h: HLD<AddMax> = HLD::with_init_value(&t.g, t.root, &v);
            Subject { name: "decomposition", size: 150 * n1, call: Box::new(move |r, _| {
                let (u, v) = (r.below(n1), r.below(n1));
                match r.below(6) { 0 => h.apply_path(u, v, 1), 1 => h.apply_subtree(u, 2), 2 => h.set(u, (5, 1)), 3 => { keep(h.get(u)); } 4 => { keep(h.subtree_prod(v)); } _ => { keep(h.path_prod(u, v)); } }
                0
            }) }
        }) }
        13 => watch(c, "factorials", n, calls, || { let f = Factorial::<M1e9p9>::new(n); Subject { name: "factorial table", size: 8 * (n + 1), call: Box::new(move |r, _| { let (k, m) = lr(r, n); keep((f.choose(m, k), f.perm(m, k))); 0 }) } }),
        14 => watch(c, "residues", n, calls, || { let mut a = ModInt998244353::new(n); Subject { name: "residues", size: 0, call: Box::new(move |r, _| { let b = ModInt998244353::new(r.u64()); a = match r.below(6) { 0 => a + b, 1 => a * b, 2 => a - b, 3 if b.val() != 0 => a / b, 4 => a.pow(r.u64()), _ => [a, b].iter().sum() }; keep(a.val()); 0 }) } }),
        15 => watch(c, "run-time residues", n, calls, || { let mut a = ModInt::new(n); Subject { name: "run-time residues", size: 0, call: Box::new(move |r, _| { if r.chance(1, 5) { ModInt::set_modulus(modmac::modulus(r)); a = ModInt::new(1) } let b = ModInt::new(r.u64()); a = match r.below(4) { 0 => a + b, 1 => a * b, 2 => a - b, _ => a.pow(r.u64()) }; keep(a.val()); 0 }) } }),
        16 => watch(c, "gcd family", n, calls, || Subject { name: "gcd family", size: 0, call: Box::new(move |r, _| { let (a, b) = ((r.u64() >> 34) as i64 + 1, (r.u64() >> 34) as i64 + 1); keep((number_theory::gcd(a, b), number_theory::lcm(a, b), number_theory::ex_gcd(a, b))); 0 }) }),
        17 => { let m: Vec<i64> = (0..n).map(|_| g.irange(1, 3)).collect(); let (a, b) = (vec![1; n], vec![1; n]); watch(c, "congruences", n, calls.min(20_000_000 / n1), || Subject { name: "congruences", size: 0, call: Box::new(move |_, _| { keep(number_theory::ex_crt(&a, &b, &m)); 48 * n }) }) }
        18 => { let s: String = (0..calls * 2 + 10).map(|i| format!("{:060} ", i % 100)).collect(); watch(c, "reader", n, calls, || { let mut i = In::new(&s); Subject { name: "reader", size: 4 * s.len(), call: Box::new(move |r, _| { match r.below(6) { 0 => { keep(i.i32()); 0 } 1 => { keep(i.bytes()); 16 } 2 => { keep(i.chars()); 16 } 3 => { keep(i.vec::<u64>(2)); 16 } 4 => { keep(i.checked_read::<i64>()); 0 } _ => { keep(i.read::<String>()); 24 } } }) } }) }
        19 => watch(c, "recursion", n, calls.min(2_000_000 / n1), || {
            let mut f = RecursiveFunction::new(|f: &mut dyn Callable<usize, usize>, x: usize| if x == 0 { 0 } else { 1 + f.call(x - 1) });
            Subject { name: "recursive function", size: 0, call: Box::new(move |_, _| { keep(f.call(n.min(50_000))); 64 * n }) }
        }),
        20 => watch(c, "monoids", n, calls, || Subject { name: "ready-made monoids", size: 0, call: Box::new(move |r, _| { let (a, b) = (r.u64() >> 40, r.u64() >> 40); keep((Max::<u64>::binary_operation(&a, &b), Min::<u64>::binary_operation(&a, &b), Additive::<u64>::binary_operation(&a, &b), Multiplicative::<u64>::binary_operation(&a, &b))); 0 }) }),
        // the automaton built pattern by pattern: repeats of a known pattern cost no further nodes
        _ => { let p: Vec<u8> = (0..n1).map(|_| b'a' + g.below(2) as u8).collect(); let k = calls.min(3000); let k = k.min(20_000_000 / n1); watch(c, "repeated patterns", n, 50, || {
            let mut a: AhoCorasick = AhoCorasick::new(k);
            for i in 0..k { a.insert(&p[..1 + i % n1], i) }
            a.build();
            Subject { name: "automaton of repeated patterns", size: (26 * 8 + 80) * (n1 + 1) + 16 * k, call: Box::new(move |_, _| { keep(a.find(&p)); 16 * n1 }) }
        }) }
    }
}
const LEFT: i64 = 65_536;
/// many calls on a small object
fn small(c: &mut Case) {
    let kind = c.idx % KINDS;
    let n = c.rng.below(12);
    let calls = if c.idx / KINDS % 4 == 0 { 30_000 } else { c.rng.range(1, 3000) };
    let left = one(c, kind, n, calls);
    check!(c, left <= LEFT, "{left} bytes are still allocated after the object is gone");
    c.nontrivial = true;
    if calls > 10_000 { c.hit("more than 10000 calls on a small object") }
}
fn sized(c: &mut Case) {
    let kind = c.idx % KINDS;
    let n = c.size(20_000);
    let left = one(c, kind, n, if kind == 4 { 300 } else { 60 });
    check!(c, left <= LEFT, "{left} bytes are still allocated after the object is gone");
    c.nontrivial = n > 1;
}
fn giant(c: &mut Case) {
    let kind = c.idx % KINDS;
    let n = match kind { 7 => 60_000, 8 | 9 => 100_000, 21 => 20_000, _ => c.rng.range(150_000, 300_000) };
    let left = one(c, kind, n, match kind { 8 | 9 => 2, 10 | 17 => 6, _ => 200 });
    check!(c, left <= LEFT, "{left} bytes are still allocated after the object is gone");
    c.nontrivial = true;
    c.hit("objects of more than 20000 elements");
}
/// short-lived objects one after another: what is left does not add up
fn churn(c: &mut Case) {
    let kind = c.idx % KINDS;
    let base = live();
    let rounds = 6000;
    let n = c.rng.range(0, 6);
    let k = c.rng.range(0, 4);
    let mut first = 0;
    for i in 0..rounds {
        one(c, kind, n, k);
        c.log.clear();
        if i == rounds / 2 { first = live() - base }
    }
    let left = live() - base;
    check!(c, left <= LEFT, "{left} bytes are still allocated after {rounds} short-lived objects ({first} after half of them)");
    c.max("short-lived objects in one case", rounds);
    c.hit("short-lived objects");
    c.nontrivial = true;
    let a = allocations();
    c.max("allocator calls observed", a);
}
/// refused calls and user operations that give up: what they held is given back
fn refused(c: &mut Case) {
    struct Bad;
    #[derive(Clone)]
    struct Fat(Vec<u32>);
    impl Monoid for Bad {
        type S = Fat;
        fn identity() -> Fat { Fat(vec![0; 8]) }
        fn binary_operation(a: &Fat, b: &Fat) -> Fat { if a.0[0] + b.0[0] > 99 { panic!("gives up") } Fat(a.0.iter().zip(&b.0).map(|(x, y)| (x + y) % 7).collect()) }
    }
    let n = c.rng.range(2, 40);
    let kind = c.rng.below(6);
    op!(c, 2, [n, kind], "4000 refused calls of kind {kind}, n = {n}");
    let base = live();
    for i in 0..4000u32 {
        let _ = expect_panic(|| match kind {
            0 => { let mut t: Segtree<Bad> = vec![Fat(vec![1; 8]); n].into(); t.set(n / 2, Fat(vec![100; 8])) }
            1 => { let mut v = vec![Fat(vec![1; 8]); n]; v[i as usize % n].0[0] = 100; let t: Segtree<Bad> = v.into(); keep(t.all_prod().0.len()); }
            2 => { let t: Segtree<Bad> = vec![Fat(vec![1; 8]); n].into(); keep(t.prod(n, 1).0.len()); }
            3 => { let mut d = Dinic::<i64>::new(n); d.add_edge(0, 1, 5); keep(d.get_max_flow(0, n)); }
            4 => { let f = Factorial::<M1e9p9>::new(n); keep(f.choose(n + 1, 1)); }
            _ => { let mut f = RecursiveFunction::new(|f: &mut dyn Callable<Vec<u8>, usize>, mut x: Vec<u8>| { if x.len() > n { panic!("gives up") } x.push(1); f.call(x) }); keep(f.call(vec![])); }
        });
    }
    let left = live() - base;
    // the record of the last panic stays
    check!(c, left <= LEFT, "{left} bytes are still allocated after 4000 calls that panicked");
    c.hit("calls that panicked");
    c.nontrivial = true;
}
fn main() {
    std::env::set_var("VMON_NOBT", "1");
    run(
        &[
            Workload { name: "small", quick: 44 * 8, thorough: 44 * 200, f: small },
            Workload { name: "sized", quick: 22 * 60, thorough: 22 * 1500, f: sized },
            Workload { name: "giant", quick: 22 * 2, thorough: 22 * 16, f: giant },
            Workload { name: "churn", quick: 22 * 4, thorough: 22 * 80, f: churn },
            Workload { name: "refused", quick: 60, thorough: 2000, f: refused },
        ],
        &["more than 10000 calls on a small object", "objects of more than 20000 elements", "short-lived objects", "calls that panicked"],
    )
}
