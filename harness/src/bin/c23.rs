//! C23 no undefined behaviour, leak or double drop, whatever a safe program does.
//! Natively: a ledger of every tracked element. Under AddressSanitizer/LeakSanitizer and Miri:
//! the same programs with the sanitizer as the oracle. Answers are not judged here; panics are allowed.
use rust_cp::data_structure::{fenwick_tree::FenwickTree, lazy_segtree::LazySegtree, min_heap::MinHeap, segtree::Segtree, sparse_table::SparseTable, union_find::UnionFind};
use rust_cp::graph::{binary_lifting::BinaryLifting, bipartite_matching::AugmentedPath, heavy_light_decomp::HLD, max_flow::Dinic, shortest_path::dijkstra, tarjan::scc};
use rust_cp::math::{factorial::Factorial, number_theory};
use rust_cp::misc::{input::In, modint, recursive_function::*};
use rust_cp::string::{aho_corasick::AhoCorasick, kmp::kmp, z_algorithm::z_function};
use rust_cp::traits::monoid::{MapMonoid, Monoid};
use std::cell::{Cell, RefCell};
use std::mem::ManuallyDrop;
use std::panic::{catch_unwind, AssertUnwindSafe};
use vmon::*;

#[macro_use]
extern crate rust_cp;

// ------------------------------------------------------------------ ledger of tracked elements
#[derive(Default)]
struct Ledger {
    live: Vec<bool>, // by identity; identities are handed out once
    count: usize,
    touched: u64,
    errors: Vec<String>,
    fuse: u64, // the user operation that panics (0: none)
    fired: bool,
}
thread_local! {
    static L: RefCell<Ledger> = RefCell::new(Ledger::default());
    static CHAOS: Cell<u64> = const { Cell::new(0) }; // when set, comparisons and predicates answer at random
}
struct Boom;
fn led<R>(f: impl FnOnce(&mut Ledger) -> R) -> R {
    L.with(|l| f(&mut l.borrow_mut()))
}
/// one user operation: the place where user code may panic
fn tick() {
    let go = led(|l| {
        l.touched += 1;
        if l.fuse > 0 && !std::thread::panicking() {
            l.fuse -= 1;
            if l.fuse == 0 {
                l.fired = true;
                return true;
            }
        }
        false
    });
    if go {
        std::panic::panic_any(Boom)
    }
}
fn chaos() -> Option<u64> {
    CHAOS.with(|c| match c.get() {
        0 => None,
        x => { c.set(mix(x) | 1); Some(x >> 7) }
    })
}
struct Tr {
    id: usize,
    v: i64,
    heap: ManuallyDrop<Box<usize>>,
}
impl Tr {
    fn new(v: i64) -> Tr {
        let id = led(|l| { l.live.push(true); l.count += 1; l.live.len() - 1 });
        Tr { id, v, heap: ManuallyDrop::new(Box::new(id)) }
    }
    /// reads the element through all its parts
    fn see(&self) -> i64 {
        led(|l| {
            if l.live.get(self.id) != Some(&true) {
                l.errors.push(format!("element {} read while not alive", self.id));
            }
        });
        let ok = led(|l| l.live.get(self.id) == Some(&true));
        if ok && **self.heap != self.id {
            led(|l| l.errors.push(format!("element {} does not own its memory", self.id)));
        }
        self.v
    }
}
impl Clone for Tr {
    fn clone(&self) -> Tr {
        tick();
        Tr::new(self.see())
    }
}
impl Drop for Tr {
    fn drop(&mut self) {
        let id = self.id;
        let ok = led(|l| match l.live.get_mut(id) {
            Some(x) if *x => { *x = false; l.count -= 1; true }
            Some(_) => { l.errors.push(format!("element {id} dropped twice")); false }
            None => { l.errors.push(format!("drop of something that never was an element ({id})")); false }
        });
        if ok {
            unsafe { ManuallyDrop::drop(&mut self.heap) }
        }
    }
}
impl PartialEq for Tr { fn eq(&self, o: &Tr) -> bool { self.cmp(o).is_eq() } }
impl Eq for Tr {}
impl PartialOrd for Tr { fn partial_cmp(&self, o: &Tr) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) } }
impl Ord for Tr {
    fn cmp(&self, o: &Tr) -> std::cmp::Ordering {
        tick();
        let (a, b) = (self.see(), o.see());
        match chaos() { Some(x) => (x % 3).cmp(&1), None => a.cmp(&b) }
    }
}
impl std::fmt::Debug for Tr { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { tick(); write!(f, "{}", self.see()) } }
impl std::str::FromStr for Tr {
    type Err = Tr; // the error is tracked too
    fn from_str(s: &str) -> Result<Tr, Tr> {
        tick();
        let t = Tr::new(s.len() as i64);
        if s.starts_with('x') { Err(t) } else { Ok(t) }
    }
}
struct Cat;
impl Monoid for Cat {
    type S = Tr;
    fn identity() -> Tr { tick(); Tr::new(0) }
    fn binary_operation(a: &Tr, b: &Tr) -> Tr { tick(); Tr::new(a.see().wrapping_mul(3).wrapping_add(b.see())) }
}
struct Aff;
impl MapMonoid for Aff {
    type M = Cat;
    type F = Tr;
    fn identity_map() -> Tr { tick(); Tr::new(1) }
    fn mapping(f: &Tr, x: &Tr) -> Tr { tick(); Tr::new(f.see().wrapping_mul(x.see())) }
    fn composition(f: &Tr, g: &Tr) -> Tr { tick(); Tr::new(f.see().wrapping_mul(g.see())) }
}

/// Runs a piece of a hostile program. A panic is allowed, an oracle's complaint is not.
fn hostile<R>(c: &mut Case, f: impl FnOnce() -> R) -> Option<R> {
    c.events += 1;
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Some(r),
        Err(p) if p.is::<Violation>() => std::panic::resume_unwind(p),
        Err(p) => {
            if p.is::<Boom>() { c.hit("user code panicked inside the library") } else { c.hit("library rejected a call") }
            None
        }
    }
}
fn begin(c: &mut Case, fuse: bool) {
    led(|l| { *l = Ledger::default(); });
    CHAOS.with(|x| x.set(if c.rng.chance(1, 8) { c.rng.u64() | 1 } else { 0 }));
    if fuse { arm(c, if cfg!(miri) { 60 } else { 400 }) }
}
fn arm(c: &mut Case, max: usize) {
    let f = if c.rng.chance(2, 3) { let k = c.rng.range(1, max); 1 + c.rng.below(k) as u64 } else { 0 };
    led(|l| l.fuse = f);
}
fn settle(c: &mut Case, what: &str) {
    CHAOS.with(|x| x.set(0));
    let (n, errs, t, made) = led(|l| { l.fuse = 0; (l.count, std::mem::take(&mut l.errors), l.touched, l.live.len()) });
    c.events += t;
    c.max("elements tracked in one case", made as u64);
    if made > 0 { c.hit("tracked elements") }
    if !errs.is_empty() { violation(format!("{what}: {}", errs[..errs.len().min(5)].join("; "))) }
    if n != 0 {
        let ids = led(|l| l.live.iter().enumerate().filter(|x| *x.1).map(|x| x.0).take(5).collect::<Vec<_>>());
        violation(format!("{what}: {n} of {made} elements never dropped (first: {ids:?})"));
    }
    c.nontrivial = true;
}
fn lim(native: usize, miri: usize) -> usize { if cfg!(miri) { miri } else { native } }
/// an index that is usually in 0..n, sometimes at or far beyond the end
fn idx(r: &mut Rng, n: usize) -> usize {
    match r.below(12) {
        0 => n,
        1 => n + 1,
        2 => n + r.below(70),
        3 => *r.pick(&[usize::MAX, usize::MAX - 1, 1 << 63, 1 << 32, isize::MAX as usize, n.next_power_of_two(), 2 * n, 2 * n.next_power_of_two()]),
        _ => r.below(n.max(1)),
    }
}

// ------------------------------------------------------------------ containers of tracked elements
fn heap(c: &mut Case) {
    begin(c, true);
    let steps = c.rng.range(1, lim(60, 14));
    op!(c, 1, [steps, led(|l| l.fuse)], "MinHeap of tracked elements, {steps} steps, user panic at operation {}", led(|l| l.fuse));
    let mut h = hostile(c, || MinHeap::<Tr>::with_capacity(3)).unwrap();
    let mut other = MinHeap::new();
    for _ in 0..steps {
        let k = c.rng.below(22);
        let v = c.rng.below(9) as i64;
        c.h(k as u64 * 16 + v as u64);
        match k {
            0..=9 => { let t = Tr::new(v); hostile(c, || h.push(t)); }
            10..=14 => { if let Some(Some(t)) = hostile(c, || h.pop()) { t.see(); } }
            15 => { hostile(c, || h.peek().map(|t| t.see())); }
            16 => { let t = Tr::new(v); hostile(c, || other.push(t)); }
            17 => { hostile(c, || h.append(&mut other)); }
            18 if c.rng.chance(1, 3) => { hostile(c, || h.clear()); }
            19 => { hostile(c, || (h.len(), h.is_empty(), other.len())); }
            20 if c.rng.chance(1, 3) => { hostile(c, || format!("{h:?}")); }
            21 if c.rng.chance(1, 2) => {
                let g = std::mem::replace(&mut h, MinHeap::new());
                if let Some(v) = hostile(c, || g.into_sorted_vec()) { for t in v.iter() { t.see(); } }
                arm(c, 60);
            }
            _ => std::mem::swap(&mut h, &mut other),
        }
    }
    match c.rng.below(3) {
        0 => { if let Some(v) = hostile(c, || h.into_sorted_vec()) { for t in v.iter() { t.see(); } } drop(other) }
        1 => { hostile(c, || while let Some(t) = h.pop() { t.see(); }); drop((h, other)) }
        _ => drop((h, other)),
    }
    settle(c, "MinHeap");
}
fn pred(c: &mut Case) -> impl Fn(&Tr) -> bool {
    let t = c.rng.below(30) as i64;
    let owned = Tr::new(t);
    move |x: &Tr| { tick(); let a = x.see() % 31 <= owned.see(); chaos().map_or(a, |y| y & 1 == 0) }
}
fn segtree(c: &mut Case) {
    begin(c, true);
    let n = c.rng.below(lim(40, 10));
    let steps = c.rng.range(1, lim(30, 6));
    op!(c, 2, [n, steps, led(|l| l.fuse)], "Segtree of {n} tracked elements, {steps} steps");
    let v: Vec<Tr> = (0..n).map(|i| Tr::new(i as i64)).collect();
    let t = match c.rng.below(4) {
        0 => { drop(v); hostile(c, || Segtree::<Cat>::new(n)) }
        1 => { drop(v); hostile(c, Segtree::<Cat>::default) }
        _ => hostile(c, || Segtree::<Cat>::from(v)),
    };
    if let Some(mut t) = t {
        for _ in 0..steps {
            let (a, b) = (idx(&mut c.rng, n), idx(&mut c.rng, n + 1));
            let k = c.rng.below(6);
            c.h(k as u64); c.h(a as u64); c.h(b as u64);
            match k {
                0 => { let x = Tr::new(b as i64); hostile(c, || t.set(a, x)); }
                1 => { hostile(c, || t.get(a).see()); }
                2 => { hostile(c, || t.prod(a.min(b), a.max(b)).see()); }
                3 => { hostile(c, || t.prod(a, b).see()); hostile(c, || t.all_prod().see()); }
                4 => { let p = pred(c); hostile(c, || t.max_right(a, p)); }
                _ => { let p = pred(c); hostile(c, || t.min_left(b, p)); }
            }
            if led(|l| l.fired) { led(|l| l.fired = false); arm(c, 200) }
        }
    }
    settle(c, "Segtree");
}
fn lazy(c: &mut Case) {
    begin(c, true);
    let n = c.rng.below(lim(40, 9));
    let steps = c.rng.range(1, lim(30, 6));
    op!(c, 3, [n, steps, led(|l| l.fuse)], "LazySegtree of {n} tracked elements and maps, {steps} steps");
    let v: Vec<Tr> = (0..n).map(|i| Tr::new(i as i64)).collect();
    let t = match c.rng.below(4) {
        0 => { drop(v); hostile(c, || LazySegtree::<Aff>::new(n)) }
        1 => { drop(v); hostile(c, LazySegtree::<Aff>::default) }
        _ => hostile(c, || LazySegtree::<Aff>::from(v)),
    };
    if let Some(mut t) = t { lazy_steps(c, &mut t, n, steps) }
    settle(c, "LazySegtree");
}
fn lazy_steps(c: &mut Case, t: &mut LazySegtree<Aff>, n: usize, steps: usize) {
    for _ in 0..steps {
        let (a, b) = (idx(&mut c.rng, n), idx(&mut c.rng, n + 1));
        let k = c.rng.below(8);
        c.h(k as u64); c.h(a as u64); c.h(b as u64);
        match k {
            0 => { let x = Tr::new(b as i64); hostile(c, || t.set(a, x)); }
            1 => { hostile(c, || t.get(a).see()); }
            2 => { hostile(c, || t.prod(a.min(b), a.max(b)).see()); }
            3 => { hostile(c, || t.prod(a, b).see()); hostile(c, || t.all_prod().see()); }
            4 => { let p = pred(c); hostile(c, || t.max_right(a, |x| p(&x))); }
            5 => { let p = pred(c); hostile(c, || t.min_left(b, |x| p(&x))); }
            6 => { let x = Tr::new(2); hostile(c, || t.apply(a, x)); }
            _ => { let x = Tr::new(3); hostile(c, || t.apply_range(a.min(b), a.max(b), x)); }
        }
        if led(|l| l.fired) { led(|l| l.fired = false); arm(c, 200) }
    }
}
fn hld(c: &mut Case) {
    begin(c, true);
    {
    let n = c.rng.range(1, lim(30, 7));
    let steps = c.rng.range(1, lim(25, 5));
    let tree = gen::tree(&mut c.rng, n);
    op!(c, 4, [n, steps, led(|l| l.fuse)], "HLD of {n} tracked elements, shape {}, {steps} steps", tree.shape);
    let root = if c.rng.chance(1, 8) { idx(&mut c.rng, n) } else { tree.root };
    let k = n - c.rng.below(8).min(n) / 7;
    let v: Vec<Tr> = (0..k).map(|i| Tr::new(i as i64)).collect();
    let t = if c.rng.chance(1, 3) { hostile(c, || HLD::<Aff>::new(&tree.g, root)) } else { hostile(c, || HLD::<Aff>::with_init_value(&tree.g, root, &v)) };
    if let Some(mut t) = t {
        for _ in 0..steps {
            let (a, b) = (idx(&mut c.rng, n), idx(&mut c.rng, n));
            let k = c.rng.below(8);
            c.h(k as u64); c.h(a as u64); c.h(b as u64);
            match k {
                0 => { let x = Tr::new(b as i64); hostile(c, || t.set(a, x)); }
                1 => { hostile(c, || t.get(a).see()); }
                2 => { hostile(c, || t.path_prod(a, b).see()); }
                3 => { hostile(c, || t.subtree_prod(a).see()); }
                4 => { let x = Tr::new(2); hostile(c, || t.apply_path(a, b, x)); }
                5 => { let x = Tr::new(3); hostile(c, || t.apply_subtree(a, x)); }
                6 => lazy_steps(c, &mut t.data, n, 1),
                _ => {
                    // positions are public: a safe program may scramble them
                    if c.rng.chance(1, 3) && a < n { t.pos[a] = idx(&mut c.rng, n); }
                }
            }
            if led(|l| l.fired) { led(|l| l.fired = false); arm(c, 200) }
        }
    }
    drop(v);
    }
    settle(c, "HLD");
}
/// closures that own tracked elements, handed to containers of plain values
fn owned_closures(c: &mut Case) {
    begin(c, true);
    {
    let n = c.rng.below(lim(50, 9));
    op!(c, 5, [n, led(|l| l.fuse)], "SparseTable and FenwickTree of {n} with closures owning tracked elements");
    let v: Vec<i64> = (0..n).map(|_| c.rng.below(20) as i64).collect();
    let o = Tr::new(7);
    if let Some(t) = hostile(c, || SparseTable::from(&v, 0, move |a: i64, b: i64| { tick(); o.see(); a.min(b) })) {
        for _ in 0..lim(10, 3) {
            let (a, b) = (idx(&mut c.rng, n), idx(&mut c.rng, n + 1));
            c.h(a as u64); c.h(b as u64);
            hostile(c, || t.get(a, b));
            hostile(c, || t.get(a.min(b), a.max(b)));
        }
    }
    led(|l| l.fired = false);
    arm(c, 100);
    let mut f = if c.rng.chance(1, 2) { FenwickTree::from(&v) } else { FenwickTree::new(n) };
    for _ in 0..lim(12, 4) {
        let (a, b) = (idx(&mut c.rng, n), idx(&mut c.rng, n + 1));
        c.h(a as u64); c.h(b as u64);
        match c.rng.below(6) {
            0 => { hostile(c, || f.add(a, 3)); }
            1 => { hostile(c, || f.pref(b)); }
            2 => { hostile(c, || f.sum(a, b)); }
            3 => { hostile(c, || f.search(&(a as i64))); }
            _ => { let o = Tr::new(a as i64 % 9); hostile(c, || f.partition_point(move |x| { tick(); *x < o.see() || chaos().is_some_and(|y| y & 1 == 0) })); }
        }
    }
    }
    settle(c, "SparseTable/FenwickTree");
}
fn reader(c: &mut Case) {
    begin(c, true);
    {
    let toks = c.rng.below(lim(12, 5));
    let mut s = String::new();
    for _ in 0..toks {
        let w = *c.rng.pick(&["a", "xbad", "12", "-7", "é", "日本", "x", "18446744073709551616", "\u{fffd}z"]);
        s.push_str(w);
        s.push_str(*c.rng.pick(&[" ", "\n", "\u{3000}", "\t ", "\u{a0}"]));
    }
    op!(c, 6, [toks, s.len()], "reader over {s:?}");
    let mut i = In::new(&s);
    for _ in 0..toks + 2 {
        let k = c.rng.below(9);
        c.h(k as u64);
        match k {
            0 => { hostile(c, || i.read::<Tr>().see()); }
            1 => { hostile(c, || i.checked_read::<Tr>().map(|t| t.see())); }
            2 => { let n = c.rng.below(4); hostile(c, || i.vec::<Tr>(n).iter().map(|t| t.see()).sum::<i64>()); }
            3 => { hostile(c, || i.bytes()); }
            4 => { hostile(c, || i.chars()); }
            5 => { hostile(c, || i.i32()); }
            6 => { hostile(c, || i.i64()); }
            7 => { hostile(c, || i.usize()); }
            _ => { hostile(c, || i.read::<String>()); }
        }
    }
    }
    settle(c, "In");
}
fn compare(c: &mut Case) {
    begin(c, true);
    {
    let n = c.rng.below(lim(40, 10));
    op!(c, 7, [n, led(|l| l.fuse)], "z_function and kmp over {n} tracked elements");
    let v: Vec<Tr> = (0..n).map(|_| Tr::new(c.rng.below(3) as i64)).collect();
    hostile(c, || z_function(&v));
    hostile(c, || kmp(&v));
    drop(v);
    }
    settle(c, "z_function/kmp");
}
fn debug_macros(c: &mut Case) {
    begin(c, true);
    {
    op!(c, 8, [led(|l| l.fuse)], "debug macros over tracked elements");
    let (a, b) = (Tr::new(1), Tr::new(2));
    // what the macros print is C28's business; here it only must not disturb the run's report
    hostile(c, || debug_single!(a).see());
    hostile(c, || { de!(&b, Tr::new(3), [Tr::new(4), Tr::new(5)]); });
    hostile(c, || { de!(b); });
    }
    settle(c, "debug macros");
}

// ------------------------------------------------------------------ recursive closures
/// captures are only read; arguments and results are tracked; user code may panic at any depth
fn rec_shared(c: &mut Case) {
    begin(c, true);
    {
    CHAOS.with(|x| x.set(0));
    let d = c.rng.below(lim(12, 4)) as i64;
    op!(c, 9, [d, led(|l| l.fuse)], "recursive closures with read-only captures to depth {d}");
    let (o, cells) = (Tr::new(5), Cell::new(0));
    let mut f = RecursiveFunction::new(|me: &mut dyn Callable<Tr, Tr>, x: Tr| -> Tr {
        tick();
        cells.set(cells.get() + o.see());
        if x.see() <= 0 { return x }
        let l = me.call(Tr::new(x.see() - 1));
        let r = me.call(Tr::new(x.see() - 2));
        Tr::new(l.see() + r.see() + x.see())
    });
    hostile(c, || f.call(Tr::new(d)).see());
    arm(c, 40);
    hostile(c, || f.call(Tr::new(d.min(3))).see());
    drop(f);
    let (own, left) = (Tr::new(6), &cells);
    let mut f0 = RecursiveFunction0::new(move |me: &mut dyn Callable0<Tr>| -> Tr { tick(); if left.get() > 0 { left.set(left.get() / 2); me.call() } else { Tr::new(own.see()) } });
    hostile(c, || f0.call().see());
    let mut f2 = RecursiveFunction2::new(|me: &mut dyn Callable2<Tr, i64, Vec<Tr>>, x: Tr, n: i64| -> Vec<Tr> { tick(); if n == 0 { vec![x] } else { let mut v = me.call(x.clone(), n - 1); v.push(x); v } });
    hostile(c, || f2.call(Tr::new(1), d).iter().map(|t| t.see()).sum::<i64>());
    let mut f3 = RecursiveFunction3::new(|me: &mut dyn Callable3<Tr, Tr, i64, i64>, x: Tr, y: Tr, n: i64| -> i64 { tick(); if n <= 0 { x.see() } else { me.call(y, x, n - 1) } });
    hostile(c, || f3.call(Tr::new(1), Tr::new(2), d));
    // never called at all
    let own = Tr::new(6);
    let f1 = RecursiveFunction::new(move |_me: &mut dyn Callable<Tr, i64>, x: Tr| -> i64 { x.see() + own.see() });
    drop(f1);
    }
    settle(c, "RecursiveFunction, read-only captures");
}
/// captures are mutated, but the closure does not call itself
fn rec_flat(c: &mut Case) {
    begin(c, true);
    {
    let d = c.rng.range(1, lim(12, 4));
    op!(c, 10, [d, led(|l| l.fuse)], "closure mutating its captures, called {d} times without recursion");
    let mut seen: Vec<Tr> = vec![];
    let mut f = RecursiveFunction2::new(|_me: &mut dyn Callable2<Tr, usize, usize>, x: Tr, k: usize| -> usize {
        tick();
        seen.push(x);
        if seen.len() > k { seen.remove(0); }
        seen.len()
    });
    for i in 0..d { hostile(c, || f.call(Tr::new(i as i64), 2)); }
    drop(f);
    drop(seen);
    }
    settle(c, "RecursiveFunction, mutated captures without recursion");
}
/// captures behind a reference are mutated by a closure that calls itself
fn rec_borrowed(c: &mut Case) {
    begin(c, true);
    {
    let d = c.rng.range(2, lim(12, 4)) as i64;
    op!(c, 11, [d, led(|l| l.fuse)], "recursive closure mutating what it borrows, to depth {d}");
    let mut seen: Vec<Tr> = vec![];
    let mut f = RecursiveFunction::new(|me: &mut dyn Callable<i64, ()>, x: i64| {
        tick();
        seen.push(Tr::new(x));
        if x > 0 { me.call(x - 1); }
        seen.push(Tr::new(-x));
    });
    hostile(c, || f.call(d));
    drop(f);
    }
    settle(c, "RecursiveFunction, mutated borrows");
}
/// state owned by the closure is mutated while it calls itself (the known finding, under Miri)
fn rec_owned(c: &mut Case) {
    // an optimised native build may do anything here (C22 reports what it does); the interpreter says why
    if !cfg!(miri) { return }
    begin(c, false);
    {
    let d = c.rng.range(2, lim(12, 4)) as i64;
    op!(c, 18, [d], "recursive closure mutating state it owns, to depth {d}");
    let mut seen: Vec<Tr> = vec![];
    let mut f = RecursiveFunction::new(move |me: &mut dyn Callable<i64, usize>, x: i64| -> usize {
        seen.push(Tr::new(x));
        if x > 0 { me.call(x - 1); }
        seen.push(Tr::new(-x));
        seen.len()
    });
    hostile(c, || f.call(d));
    drop(f);
    }
    settle(c, "RecursiveFunction, mutated owned state");
}

// ------------------------------------------------------------------ plain values, hostile arguments
fn graphs(c: &mut Case) {
    begin(c, false);
    let n = c.rng.below(lim(20, 7));
    let e = gen::digraph(&mut c.rng, n, lim(60, 10));
    op!(c, 12, [n, e.len()], "graph algorithms on {n} vertices, edges {:?}", e);
    for &(a, b) in &e { c.h((a * 64 + b) as u64) }
    // weights near the top only on forward edges, so that wrapping sums cannot go round for ever
    let mut g = vec![vec![]; n];
    for &(a, b) in &e {
        let w = if a < b && c.rng.chance(1, 6) { *c.rng.pick(&[usize::MAX, usize::MAX / 2 + 1]) } else { c.rng.below(9) };
        if w > 9 && !cfg!(debug_assertions) { continue }
        g[a].push((b, w));
    }
    if n > 0 && c.rng.chance(1, 6) { let (u, v) = (c.rng.below(n), n + c.rng.below(3)); g[u].push((v, 1)); c.hit("edge to a vertex that does not exist") }
    let s = idx(&mut c.rng, n);
    hostile(c, || dijkstra(&g, s));
    let mut h = gen::adj(n, &e);
    hostile(c, || scc(&h));
    if n > 0 && c.rng.chance(1, 6) { let u = c.rng.below(n); h[u].push(n); hostile(c, || scc(&h)); }
    let mut m = AugmentedPath::new(n, n);
    let mut d = Dinic::<i64>::new(n);
    for &(a, b) in &e { m.add_edge(a, b); d.add_edge(a, b, 1 + (a ^ b) as i64 % 5) }
    hostile(c, || m.solve());
    if n > 0 && c.rng.chance(1, 4) { let v = idx(&mut c.rng, n); hostile(c, || m.add_edge(0, v)); hostile(c, || m.solve()); let u = idx(&mut c.rng, n); hostile(c, || m.add_edge(u, 0)); }
    let t = idx(&mut c.rng, n);
    hostile(c, || d.get_max_flow(s, t));
    let (a, b) = (idx(&mut c.rng, n), idx(&mut c.rng, n));
    hostile(c, || d.add_edge(a, b, 5)); // not solved afterwards: the edge list may be left unbalanced
    drop(d);
    settle(c, "graphs");
}
fn trees(c: &mut Case) {
    begin(c, false);
    let n = c.rng.range(1, lim(40, 9));
    let t = gen::tree(&mut c.rng, n);
    op!(c, 13, [n, t.root], "lifting and union-find on {n} vertices");
    let root = if c.rng.chance(1, 6) { idx(&mut c.rng, n) } else { t.root };
    if let Some(mut b) = hostile(c, || BinaryLifting::from(&t.g, root)) {
        for _ in 0..lim(12, 4) {
            let (u, v) = (idx(&mut c.rng, n), idx(&mut c.rng, n));
            c.h(u as u64); c.h(v as u64);
            hostile(c, || b.lca(u, v));
            hostile(c, || b.dis(u, v));
            hostile(c, || b.is_ancestor(u, v));
            if c.rng.chance(1, 9) { b.pa[t.root][0] = idx(&mut c.rng, n); b.level = 1 + c.rng.below(9); c.hit("public fields scrambled") }
        }
    }
    let mut uf = UnionFind::new(n);
    for _ in 0..lim(20, 6) {
        let (u, v) = (idx(&mut c.rng, n), idx(&mut c.rng, n));
        c.h(u as u64 ^ 7); c.h(v as u64);
        match c.rng.below(5) {
            0 => { hostile(c, || uf.find(u)); }
            1 => { hostile(c, || uf.is_same(u, v)); }
            2 => { hostile(c, || uf.size(u)); }
            3 => { hostile(c, || uf.groups()); }
            _ => { hostile(c, || uf.join(u, v)); }
        }
    }
    settle(c, "trees");
}
fn strings(c: &mut Case) {
    begin(c, false);
    let k = c.rng.below(lim(5, 3));
    let word = |r: &mut Rng, m: usize| -> Vec<u8> { let n = r.below(m + 1); let bad = r.chance(1, 6); (0..n).map(|_| if bad && r.chance(1, 4) { r.below(256) as u8 } else { b'a' + r.below(3) as u8 }).collect() };
    let ps: Vec<Vec<u8>> = (0..k).map(|_| word(&mut c.rng, 4)).collect();
    let text = word(&mut c.rng, lim(30, 8));
    op!(c, 14, [k, text.len()], "automaton of {:?} over {:?}", ps, text);
    for b in ps.iter().flatten().chain(&text) { c.h(*b as u64) }
    let refs: Vec<&[u8]> = ps.iter().map(|p| &p[..]).collect();
    type A = AhoCorasick<b'a', 3>;
    if let Some(a) = hostile(c, || A::from(&refs)) {
        hostile(c, || a.find(&text));
        hostile(c, || a.find_all(&text));
        hostile(c, || a.find_cnt(&text));
    }
    // the pieces by hand: searching before build, indices that were never announced, inserting late
    const OFF: u8 = if cfg!(miri) { b'a' } else { 0 };
    const LETTERS: usize = if cfg!(miri) { 5 } else { 256 };
    let mut a = AhoCorasick::<OFF, LETTERS>::new(c.rng.below(3));
    for (i, p) in refs.iter().enumerate() { let j = i + c.rng.below(3); hostile(c, || a.insert(p, j)); }
    hostile(c, || a.find_cnt(&text));
    hostile(c, || a.build());
    hostile(c, || a.find_all(&text));
    hostile(c, || a.find_cnt(&text));
    hostile(c, || a.find(&text));
    hostile(c, || z_function(&text));
    hostile(c, || kmp(&text));
    settle(c, "strings");
}
#[derive(Copy, Clone, Eq, PartialEq)]
enum Own {}
impl modint::Id for Own {
    fn companion_barrett() -> &'static modint::Barrett {
        static B: modint::Barrett = modint::Barrett::new(11);
        &B
    }
}
fn numbers(c: &mut Case) {
    begin(c, false);
    type D = modint::DynamicModInt<Own>;
    type S = modint::ModInt998244353;
    let m = match c.rng.below(6) { 0 => 0, 1 => u32::MAX, 2 => c.rng.u64() as u32, _ => modmac::modulus(&mut c.rng) };
    let (a, b) = (c.rng.bits(32) as u32, c.rng.bits(32) as u32);
    op!(c, 15, [m, a, b], "modulus {m}, representatives {a} and {b} in range or not");
    hostile(c, || D::set_modulus(m));
    macro_rules! all { ($t:ident) => {
        let (x, y) = ($t::raw(a), $t::new(b));
        hostile(c, || x + y); hostile(c, || x - y); hostile(c, || x * y); hostile(c, || x / y); hostile(c, || -x);
        hostile(c, || x.pow(b as u64)); hostile(c, || x.inv()); hostile(c, || (x.val(), format!("{x} {x:?}"), x == y));
        hostile(c, || { let mut z = x; z += y; z -= x; z *= y; z /= y; z });
        hostile(c, || "12x".parse::<$t>().is_ok()); hostile(c, || "-99999999999".parse::<$t>().is_ok());
        hostile(c, || [x, y, x].iter().sum::<$t>()); hostile(c, || [x, y].iter().product::<$t>());
        hostile(c, || { let mut s = std::collections::HashSet::new(); s.insert(x); s.contains(&y) });
    } }
    all!(D);
    all!(S);
    let n = c.rng.below(lim(30, 6));
    let (q, k) = (idx(&mut c.rng, n + 1), idx(&mut c.rng, n + 1));
    if let Some(f) = hostile(c, || Factorial::<modint::Mod998244353>::new(n)) { hostile(c, || f.choose(q, k)); hostile(c, || f.perm(q, k)); }
    let (u, v) = (c.rng.u64() as i64, c.rng.bits(63) as i64);
    hostile(c, || number_theory::gcd(u, v)); hostile(c, || number_theory::lcm(u, v)); hostile(c, || number_theory::ex_gcd(u, v));
    hostile(c, || number_theory::ex_crt(&vec![1, u % 9], &vec![a as i64, b as i64], &vec![m as i64, 7]));
    hostile(c, || number_theory::ex_crt(&vec![1, 2, 3], &vec![1], &vec![5, 7]));
    settle(c, "numbers");
}
/// threads that share what the library lets them share
fn threads(c: &mut Case) {
    begin(c, false);
    type D = modint::DynamicModInt<Own>;
    let k = lim(4, 2);
    let m = modmac::modulus(&mut c.rng);
    op!(c, 16, [m, k], "{k} threads: one modulus being set by all, one read-only segment tree, one text");
    D::set_modulus(m);
    let t = Segtree::<rust_cp::misc::monoids::Max<i64>>::from((0..9).collect::<Vec<i64>>());
    let a: AhoCorasick = AhoCorasick::from(&[b"ab", b"b"]);
    let f = FenwickTree::from(&[1i64, 2, 3]);
    let st = SparseTable::from(&[3i64, 1, 2], 0, |a, b| a.min(b));
    let n: usize = std::thread::scope(|s| {
        let hs: Vec<_> = (0..k).map(|i| { let (t, a, f, st) = (&t, &a, &f, &st); s.spawn(move || {
            D::set_modulus(if i == 0 { m } else { (m / 2).max(1) });
            // another thread may be between the two stores of its own setting: only that there is no race counts
            let r = catch_unwind(|| { let x = D::new(12345u32 + i as u32); (x * x).val() as usize });
            r.unwrap_or(0) + t.prod(0, 9) as usize + a.find_all(b"abab").len() + f.pref(3) as usize + st.get(0, 3) as usize
        }) }).collect();
        hs.into_iter().map(|h| h.join().unwrap_or(0)).fold(0usize, |x, y| x.wrapping_add(y))
    });
    c.events += n as u64 & 1;
    // moved to another thread and dropped there
    let (mut h, l) = (MinHeap::new(), LazySegtree::<Sums>::from(vec![1, 2, 3]));
    h.push(Box::new(3)); h.push(Box::new(1));
    std::thread::spawn(move || { let mut l = l; l.apply_range(0, 2, 4); (h.pop(), l.prod(0, 3)) }).join().unwrap();
    settle(c, "threads");
}
struct Sums;
impl MapMonoid for Sums {
    type M = rust_cp::misc::monoids::Max<i64>;
    type F = i64;
    fn identity_map() -> i64 { 0 }
    fn mapping(f: &i64, x: &i64) -> i64 { x.saturating_add(*f) }
    fn composition(f: &i64, g: &i64) -> i64 { f.saturating_add(*g) }
}
// ------------------------------------------------------------------ what may cross threads
struct Probe<T>(std::marker::PhantomData<T>);
trait No { fn send(&self) -> bool { false } }
trait NoSync { fn sync(&self) -> bool { false } }
impl<T> No for &Probe<T> {}
impl<T> NoSync for &Probe<T> {}
trait Yes { fn send(&self) -> bool { true } }
trait YesSync { fn sync(&self) -> bool { true } }
impl<T: Send> Yes for Probe<T> {}
impl<T: Sync> YesSync for Probe<T> {}
fn probe<T>(_: &T) -> Probe<T> { Probe(std::marker::PhantomData) }
struct RcMon;
impl Monoid for RcMon {
    type S = std::rc::Rc<i32>;
    fn identity() -> Self::S { std::rc::Rc::new(0) }
    fn binary_operation(a: &Self::S, b: &Self::S) -> Self::S { std::rc::Rc::new(**a + **b) }
}
impl MapMonoid for RcMon {
    type M = RcMon;
    type F = ();
    fn identity_map() {}
    fn mapping(_: &(), x: &std::rc::Rc<i32>) -> std::rc::Rc<i32> { x.clone() }
    fn composition(_: &(), _: &()) {}
}
/// containers of elements that must stay on one thread may not be sent or shared; Rc counts are not atomic
fn confined(c: &mut Case) {
    begin(c, false);
    op!(c, 17, [], "thread confinement of containers of Rc and of closures in a cell");
    let h = MinHeap::<std::rc::Rc<i32>>::new();
    check!(c, !(&probe(&h)).send() && !(&probe(&h)).sync(), "MinHeap<Rc> may cross threads");
    let t = Segtree::<RcMon>::new(2);
    check!(c, !(&probe(&t)).send() && !(&probe(&t)).sync(), "Segtree of Rc may cross threads");
    let t = LazySegtree::<RcMon>::new(2);
    check!(c, !(&probe(&t)).send() && !(&probe(&t)).sync(), "LazySegtree of Rc may cross threads");
    let t = HLD::<RcMon>::new(&vec![vec![]], 0);
    check!(c, !(&probe(&t)).send() && !(&probe(&t)).sync(), "HLD of Rc may cross threads");
    let rc = std::rc::Rc::new(4);
    let r = rc.clone();
    let op: Box<dyn Fn(i32, i32) -> i32> = Box::new(move |a, b| a + b + *r);
    let t = SparseTable::from(&[1, 2], 0, op);
    check!(c, !(&probe(&t)).send() && !(&probe(&t)).sync(), "SparseTable with a closure that may hold Rc may cross threads");
    type B1 = Box<dyn FnMut(&mut dyn Callable<i32, i32>, i32) -> i32 + Send + Sync>;
    type B2 = Box<dyn FnMut(&mut dyn Callable2<i32, i32, i32>, i32, i32) -> i32>;
    let b: B1 = Box::new(|_m, x| x);
    let f = RecursiveFunction::new(b);
    check!(c, !(&probe(&f)).sync(), "RecursiveFunction may be shared between threads");
    let b: B2 = Box::new(move |_m, x, y| x + y + *rc);
    let f = RecursiveFunction2::new(b);
    check!(c, !(&probe(&f)).send() && !(&probe(&f)).sync(), "RecursiveFunction2 with a closure that may hold Rc may cross threads");
    // the probe itself does see what may cross
    check!(c, (&probe(&MinHeap::<i32>::new())).send() && (&probe(&3)).sync(), "the probe is broken");
    settle(c, "confinement");
}
const W: &[Workload] = &[
    Workload { name: "heap", quick: 40_000, thorough: 800_000, f: heap },
    Workload { name: "segtree", quick: 20_000, thorough: 400_000, f: segtree },
    Workload { name: "lazy", quick: 16_000, thorough: 300_000, f: lazy },
    Workload { name: "hld", quick: 10_000, thorough: 200_000, f: hld },
    Workload { name: "owned-closures", quick: 16_000, thorough: 300_000, f: owned_closures },
    Workload { name: "reader", quick: 20_000, thorough: 300_000, f: reader },
    Workload { name: "compare", quick: 12_000, thorough: 200_000, f: compare },
    Workload { name: "debug-macros", quick: 20, thorough: 40, f: debug_macros },
    Workload { name: "recursive/shared", quick: 8000, thorough: 200_000, f: rec_shared },
    Workload { name: "recursive/flat", quick: 8000, thorough: 200_000, f: rec_flat },
    Workload { name: "recursive/mut-borrowed", quick: 8000, thorough: 200_000, f: rec_borrowed },
    Workload { name: "recursive/mut-owned", quick: 32, thorough: 32, f: rec_owned },
    Workload { name: "graphs", quick: 12_000, thorough: 200_000, f: graphs },
    Workload { name: "trees", quick: 12_000, thorough: 200_000, f: trees },
    Workload { name: "strings", quick: 12_000, thorough: 200_000, f: strings },
    Workload { name: "numbers", quick: 8000, thorough: 100_000, f: numbers },
    Workload { name: "threads", quick: 300, thorough: 5000, f: threads },
    Workload { name: "confined", quick: 1, thorough: 1, f: confined },
];
fn main() {
    run(W, if cfg!(miri) { &[] } else { &["tracked elements", "user code panicked inside the library", "library rejected a call", "edge to a vertex that does not exist"] })
}
