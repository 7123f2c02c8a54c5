//! C24 rejected calls: they panic in both builds, and leave the object as it was. Twin objects get
//! the same accepted calls; only one of the two also gets the rejected ones.
use rust_cp::data_structure::{lazy_segtree::LazySegtree, segtree::Segtree, sparse_table::SparseTable, union_find::UnionFind};
use rust_cp::graph::{binary_lifting::BinaryLifting, heavy_light_decomp::HLD, max_flow::Dinic};
use rust_cp::math::factorial::Factorial;
use rust_cp::misc::input::In;
use rust_cp::misc::modint::*;
use rust_cp::string::aho_corasick::AhoCorasick;
use std::fmt::Debug;
use vmon::gen::tree;
use vmon::models::*;
use vmon::*;

/// the call must panic
fn must<R: Debug>(c: &mut Case, what: &'static str, args: &[usize], f: impl FnOnce() -> R) {
    c.h(what.len() as u64);
    for a in args { c.h(*a as u64) }
    c.ops += 1;
    c.events += 1;
    c.hit(what);
    if c.verbose { let s = format!("rejected call: {what} {args:?}"); c.push_log(s) }
    if let Err(v) = expect_panic(f) { violation(format!("{what} {args:?}: returned {v:?} instead of panicking")) }
}
/// an index > hi: just past, inside the padding up to the next powers of two, or huge
fn past(r: &mut Rng, hi: usize) -> usize {
    match r.below(7) {
        0 | 1 => hi + 1,
        2 => (hi + 1).next_power_of_two().max(hi + 1),
        3 => (hi + 2).next_power_of_two() * 2 - 1,
        4 => hi + 1 + r.below(hi + 2),
        5 => *r.pick(&[usize::MAX, usize::MAX - 1, usize::MAX / 2, usize::MAX / 2 + 1, u32::MAX as usize, u32::MAX as usize + 1, 1 << 31, usize::MAX - hi]),
        _ => hi + 1 + r.below(1 << 20),
    }
}
/// l <= r violated or r > n
fn bad_range(r: &mut Rng, n: usize) -> (usize, usize) {
    match r.below(4) {
        0 if n > 0 => { let a = r.below(n); (a + 1 + r.below(n - a), a) }
        1 => (r.below(n + 1), past(r, n)),
        2 => { let a = past(r, n); (a, a) }
        _ => { let a = past(r, n); (a, r.below(n + 1)) }
    }
}
fn seg(c: &mut Case) {
    let n = c.size(80);
    let a: Vec<Seq> = (0..n).map(|_| leaf(c.rng.u64())).collect();
    op!(c, 1, [n], "segment tree of {n}");
    let (mut x, mut y): (Segtree<SeqM>, Segtree<SeqM>) = (a.clone().into(), a.into());
    for _ in 0..c.rng.range(1, 12) {
        let r = &mut c.rng.clone();
        c.rng.u64();
        if n > 0 && r.chance(1, 2) {
            let (p, v) = (r.below(n), leaf(r.u64()));
            op!(c, 2, [p], "set({p})");
            x.set(p, v);
            y.set(p, v);
        }
        match r.below(6) {
            0 => { let p = past(r, n - (n > 0) as usize); if p >= n { must(c, "segtree set", &[p, n], || x.set(p, leaf(7))) } }
            1 => { let p = past(r, n - (n > 0) as usize); if p >= n { must(c, "segtree get", &[p, n], || x.get(p)) } }
            2 => { let (l, q) = bad_range(r, n); must(c, "segtree prod", &[l, q, n], || x.prod(l, q)) }
            3 => { let l = past(r, n); must(c, "segtree max_right bound", &[l, n], || x.max_right(l, |_| true)); must(c, "segtree min_left bound", &[l, n], || x.min_left(l, |_| true)) }
            4 => { let l = r.below(n + 1); let k = r.below(n + 1) as u64; must(c, "segtree max_right predicate", &[l, n], || x.max_right(l, |s| s.len > k)) }
            _ => { let l = r.below(n + 1); must(c, "segtree min_left predicate", &[l, n], || x.min_left(l, |s| s.len != 0)) }
        }
        let (l, q) = c.range(n);
        check_eq!(c, x.prod(l, q), y.prod(l, q), "prod({},{}) after a rejected call", l, q);
        check_eq!(c, x.all_prod(), y.all_prod(), "all_prod after a rejected call");
    }
    for i in 0..n { check_eq!(c, x.get(i), y.get(i), "get({}) after rejected calls", i) }
    for l in 0..=n { let k = c.rng.below(n + 1) as u64; check_eq!(c, x.max_right(l, |s| s.len <= k), y.max_right(l, |s| s.len <= k), "max_right after rejected calls"); check_eq!(c, x.min_left(l, |s| s.len <= k), y.min_left(l, |s| s.len <= k), "min_left after rejected calls") }
    c.nontrivial = n > 0;
}
fn lazy(c: &mut Case) {
    let n = c.size(80);
    let a: Vec<Seq> = (0..n).map(|_| leaf(c.rng.u64())).collect();
    op!(c, 3, [n], "lazy segment tree of {n}");
    let (mut x, mut y): (LazySegtree<SeqAff>, LazySegtree<SeqAff>) = (a.clone().into(), a.into());
    for _ in 0..c.rng.range(1, 14) {
        let r = &mut c.rng.clone();
        c.rng.u64();
        let f = (r.u64() % modp::P, r.u64() % modp::P);
        if n > 0 {
            let (l, q) = c.range(n);
            op!(c, 4, [l, q], "apply_range({l},{q})");
            x.apply_range(l, q, f);
            y.apply_range(l, q, f);
            if r.chance(1, 3) {
                let p = r.below(n);
                op!(c, 5, [p], "set({p})");
                x.set(p, leaf(f.0));
                y.set(p, leaf(f.0));
            }
        }
        let p = past(r, n.saturating_sub(1)).max(n);
        match r.below(9) {
            0 => must(c, "lazy set", &[p, n], || x.set(p, leaf(7))),
            1 => must(c, "lazy get", &[p, n], || x.get(p)),
            2 => { let (l, q) = bad_range(r, n); must(c, "lazy prod", &[l, q, n], || x.prod(l, q)) }
            3 => must(c, "lazy apply", &[p, n], || x.apply(p, f)),
            4 => { let (l, q) = bad_range(r, n); must(c, "lazy apply_range", &[l, q, n], || x.apply_range(l, q, f)) }
            5 => { let l = past(r, n); must(c, "lazy max_right bound", &[l, n], || x.max_right(l, |_| true)) }
            6 => { let l = past(r, n); must(c, "lazy min_left bound", &[l, n], || x.min_left(l, |_| true)) }
            7 => { let l = r.below(n + 1); must(c, "lazy max_right predicate", &[l, n], || x.max_right(l, |s| s.len != 0)) }
            _ => { let l = r.below(n + 1); must(c, "lazy min_left predicate", &[l, n], || x.min_left(l, |s| s.len != 0)) }
        }
        check_eq!(c, x.all_prod(), y.all_prod(), "all_prod after a rejected call");
        let (l, q) = c.range(n);
        check_eq!(c, x.prod(l, q), y.prod(l, q), "prod({},{}) after a rejected call", l, q);
    }
    for i in 0..n { check_eq!(c, x.get(i), y.get(i), "get({}) after rejected calls", i) }
    for l in 0..=n { let k = c.rng.below(n + 1) as u64; check_eq!(c, x.max_right(l, |s| s.len <= k), y.max_right(l, |s| s.len <= k), "max_right after rejected calls"); check_eq!(c, x.min_left(l, |s| s.len <= k), y.min_left(l, |s| s.len <= k), "min_left after rejected calls") }
    c.nontrivial = n > 0;
}
fn uf(c: &mut Case) {
    let n = c.size(60);
    op!(c, 6, [n], "union-find of {n}");
    let (mut x, mut y) = (UnionFind::new(n), UnionFind::new(n));
    for _ in 0..c.rng.range(1, 20) {
        let r = &mut c.rng.clone();
        c.rng.u64();
        if n > 0 {
            let (a, b) = (r.below(n), r.below(n));
            op!(c, 7, [a, b], "join({a},{b})");
            check_eq!(c, x.join(a, b), y.join(a, b), "join after a rejected call");
        }
        let p = past(r, n.saturating_sub(1)).max(n);
        let ok = r.below(n.max(1));
        match r.below(7) {
            0 => must(c, "union-find find", &[p, n], || x.find(p)),
            1 => must(c, "union-find size", &[p, n], || x.size(p)),
            2 if n > 0 => must(c, "union-find join left", &[p, ok, n], || x.join(p, ok)),
            3 if n > 0 => must(c, "union-find join right", &[ok, p, n], || x.join(ok, p)),
            4 if n > 0 => must(c, "union-find is_same left", &[p, ok, n], || x.is_same(p, ok)),
            5 if n > 0 => must(c, "union-find is_same right", &[ok, p, n], || x.is_same(ok, p)),
            _ => { must(c, "union-find is_same both", &[p, n], || x.is_same(p, p)); must(c, "union-find join both", &[p, n], || x.join(p, p)) }
        }
    }
    let mut g = [x.groups(), y.groups()];
    for v in g.iter_mut() { for s in v.iter_mut() { s.sort() } v.sort() }
    check_eq!(c, g[0], g[1], "groups after rejected calls");
    for i in 0..n { check_eq!(c, x.size(i), y.size(i), "size({}) after rejected calls", i) }
    c.nontrivial = n > 1;
}
fn sparse(c: &mut Case) {
    let n = c.size1(100);
    let a: Vec<u64> = (0..n).map(|_| c.rng.u64()).collect();
    op!(c, 8, [n], "sparse table of {n}");
    let t = SparseTable::from(&a, 0, u64::min);
    for _ in 0..10 {
        let r = c.rng.below(n + 1);
        let l = if r < n && c.rng.chance(1, 2) { c.rng.range(r, n) } else { r };
        must(c, "sparse get empty or reversed", &[l, r, n], || t.get(l, r));
        let (p, q) = c.range(n);
        if p < q { check_eq!(c, t.get(p, q), *a[p..q].iter().min().unwrap(), "get after a rejected call") }
    }
    c.nontrivial = true;
}
fn ac(c: &mut Case) {
    let k = c.rng.range(1, 6);
    let ps: Vec<Vec<u8>> = (0..k).map(|_| (0..c.rng.range(1, 5)).map(|_| b'a' + c.rng.below(3) as u8).collect()).collect();
    let text: Vec<u8> = (0..c.rng.below(40)).map(|_| b'a' + c.rng.below(3) as u8).collect();
    op!(c, 9, [k], "patterns {:?}", ps);
    for p in &ps { c.h_slice(p) }
    let (mut x, mut y) = (<AhoCorasick>::new(k), <AhoCorasick>::new(k));
    for (i, p) in ps.iter().enumerate() {
        if c.rng.chance(1, 2) { let id = c.rng.below(k); must(c, "empty pattern", &[i], || x.insert(b"", id)) }
        x.insert(p, i);
        y.insert(p, i);
    }
    if c.rng.chance(1, 2) { must(c, "empty pattern", &[k], || x.insert(b"", 0)) }
    x.build();
    y.build();
    check_eq!(c, x.find_all(&text), y.find_all(&text), "find_all after a rejected pattern");
    check_eq!(c, x.find(&text), y.find(&text), "find after a rejected pattern");
    check_eq!(c, x.find_cnt(&text), y.find_cnt(&text), "find_cnt after a rejected pattern");
    let at = c.rng.below(k + 1);
    let mut qs: Vec<&[u8]> = ps.iter().map(|p| &p[..]).collect();
    qs.insert(at, b"");
    must(c, "empty pattern in from", &[at, k], || <AhoCorasick>::from(&qs).find_all(&text));
    c.nontrivial = true;
}
fn trees(c: &mut Case) {
    let n = c.size1(40);
    let t = tree(&mut c.rng, n);
    let g = t.g.clone();
    op!(c, 10, [n], "tree {:?}", t.par);
    let root = past(&mut c.rng, n - 1);
    must(c, "binary lifting root", &[root, n], || BinaryLifting::from(&g, root).dep);
    must(c, "HLD root", &[root, n], || HLD::<BagAff>::new(&g, root).pos);
    let init = vec![<BagAff as rust_cp::traits::monoid::MapMonoid>::identity_element(); n];
    must(c, "HLD root with values", &[root, n], || HLD::<BagAff>::with_init_value(&g, root, &init).pos);
    let m = if c.rng.chance(1, 2) { n + 1 + c.rng.below(5) } else { c.rng.below(n) };
    let bad = vec![<BagAff as rust_cp::traits::monoid::MapMonoid>::identity_element(); m];
    must(c, "HLD initial values", &[m, n], || HLD::<BagAff>::with_init_value(&g, t.root, &bad).pos);
    must(c, "HLD empty", &[0], || HLD::<BagAff>::new(&vec![], 0).pos);
    c.nontrivial = true;
}
fn flow(c: &mut Case) {
    let n = c.size1(12);
    let m = c.rng.below(30);
    let es: Vec<(usize, usize, i64)> = (0..m).map(|_| (c.rng.below(n), c.rng.below(n), c.rng.below(20) as i64)).collect();
    op!(c, 11, [n, m], "network {:?}", es);
    let (mut x, mut y) = (Dinic::<i64>::new(n), Dinic::<i64>::new(n));
    let ok = c.rng.below(n);
    for (i, &(u, v, w)) in es.iter().enumerate() {
        x.add_edge(u, v, w);
        y.add_edge(u, v, w);
        c.h(u as u64 * 1000 + v as u64);
        if i % 4 == 0 {
            let p = past(&mut c.rng, n - 1);
            must(c, "sink", &[ok, p, n], || x.get_max_flow(ok, p));
            must(c, "source", &[p, ok, n], || x.get_max_flow(p, ok));
            must(c, "source and sink", &[p, n], || x.get_max_flow(p, p));
        }
    }
    let p = past(&mut c.rng, n - 1);
    must(c, "sink", &[ok, p, n], || x.get_max_flow(ok, p));
    must(c, "source", &[p, ok, n], || x.get_max_flow(p, ok));
    let t = c.rng.below(n);
    if t != ok { check_eq!(c, x.get_max_flow(ok, t), y.get_max_flow(ok, t), "flow after rejected calls") }
    c.nontrivial = m > 0;
}
fn fact<T: Modulus>(c: &mut Case) {
    let n = c.size(60);
    op!(c, 12, [n], "factorial table 0..={n}");
    let f = Factorial::<T>::new(n);
    for _ in 0..4 {
        let a = c.rng.below(n + 1);
        let k = past(&mut c.rng, a);
        must(c, "choose k > n", &[a, k, n], || f.choose(a, k));
        must(c, "perm k > n", &[a, k, n], || f.perm(a, k));
        let b = past(&mut c.rng, n);
        let k = if c.rng.chance(1, 2) { c.rng.below(n + 1) } else { *c.rng.pick(&[0, b, b - 1, b / 2]) };
        must(c, "choose n > N", &[b, k, n], || f.choose(b, k));
        must(c, "perm n > N", &[b, k, n], || f.perm(b, k));
        let b2 = past(&mut c.rng, b.min(1 << 40));
        if b2 > b { must(c, "choose k > n > N", &[b, b2], || f.choose(b, b2)) }
    }
    check_eq!(c, f.choose(n, 0).val(), 1, "choose(n,0) after rejected calls");
    c.nontrivial = true;
}
fn facts(c: &mut Case) { if c.idx % 2 == 0 { fact::<Mod998244353>(c) } else { fact::<Mod1000000007>(c) } }
fn modz(c: &mut Case) {
    type Z = DynamicModInt<vmon::modmac::DynA>;
    let m = vmon::modmac::modulus(&mut c.rng);
    op!(c, 13, [m], "modulus {m}, then 0");
    Z::set_modulus(m);
    let (a, b) = (Z::new(c.rng.u64()), Z::new(c.rng.u64()));
    let before = (a * b).val();
    must(c, "zero modulus", &[m as usize], || Z::set_modulus(0));
    check_eq!(c, Z::modulus(), m, "modulus after set_modulus(0) was rejected");
    check_eq!(c, (a * b).val(), before, "product after set_modulus(0) was rejected");
    check_eq!(c, before as u64, a.val() as u64 * b.val() as u64 % m as u64, "product");
    must(c, "zero modulus, default id", &[0], || ModInt::set_modulus(0));
    check_eq!(c, ModInt::modulus(), 998_244_353, "default modulus after set_modulus(0) was rejected");
    c.nontrivial = true;
}
fn input(c: &mut Case) {
    let good: Vec<u32> = (0..c.rng.below(5)).map(|_| c.rng.u64() as u32 >> 8).collect();
    let bads = ["x", "1.5", "--3", "9999999999999999999999", "-", "+", "0x10", "1_000", "ten", "3a", "١", "²", "1,2"];
    let bad = *c.rng.pick(&bads);
    let mut s: String = good.iter().map(|x| format!("{x} ")).collect();
    let k = c.rng.below(9);
    op!(c, 14, [k, good.len()], "reader over {:?} + {:?}, kind {}", s, bad, k);
    c.h_slice(&good);
    for b in bad.bytes() { c.h(b as u64) }
    if k < 5 { s.push_str(bad); s.push_str(" 7\n") }
    else if c.rng.chance(1, 2) { s.push_str(" \n\t ") }
    let mut r = In::new(&s);
    for &g in &good { check_eq!(c, r.read::<u32>(), g, "token before the bad one") }
    match k {
        0 => must(c, "unparsable i64", &[], || r.read::<i64>()),
        1 => must(c, "unparsable i32", &[], || r.i32()),
        2 => must(c, "unparsable usize", &[], || r.usize()),
        3 => must(c, "unparsable checked_read", &[], || r.checked_read::<i64>()),
        4 => must(c, "unparsable in vec", &[], || r.vec::<i64>(2)),
        5 => { must(c, "missing token", &[], || r.read::<String>()); must(c, "missing token i64", &[], || r.i64()); must(c, "missing token i32", &[], || r.i32()) }
        6 => must(c, "missing token bytes", &[], || r.bytes()),
        7 => must(c, "missing token chars", &[], || r.chars()),
        _ => must(c, "missing token in vec", &[], || r.vec::<i64>(1)),
    }
    if k >= 5 { check_eq!(c, r.checked_read::<i64>(), None, "checked read at the end") }
    // values that do not fit the type
    let t = format!("{} {} -1 {}", i32::MAX as i64 + 1 + c.rng.below(1000) as i64, i32::MIN as i64 - 1, u8::MAX as u32 + 1 + c.rng.below(100) as u32);
    let mut r = In::new(&t);
    must(c, "too large for i32", &[], || r.i32());
    must(c, "too small for i32", &[], || r.i32());
    must(c, "negative usize", &[], || r.usize());
    must(c, "too large for u8", &[], || r.read::<u8>());
    c.nontrivial = true;
}
fn main() {
    run(
        &[
            Workload { name: "segtree", quick: 60_000, thorough: 800_000, f: seg },
            Workload { name: "lazy_segtree", quick: 60_000, thorough: 800_000, f: lazy },
            Workload { name: "union_find", quick: 40_000, thorough: 480_000, f: uf },
            Workload { name: "sparse_table", quick: 15_000, thorough: 160_000, f: sparse },
            Workload { name: "aho_corasick", quick: 30_000, thorough: 320_000, f: ac },
            Workload { name: "trees", quick: 25_000, thorough: 320_000, f: trees },
            Workload { name: "flow", quick: 25_000, thorough: 320_000, f: flow },
            Workload { name: "factorial", quick: 15_000, thorough: 160_000, f: facts },
            Workload { name: "modulus", quick: 15_000, thorough: 160_000, f: modz },
            Workload { name: "reader", quick: 40_000, thorough: 480_000, f: input },
        ],
        &["segtree set", "segtree get", "segtree prod", "segtree max_right bound", "segtree min_left bound", "segtree max_right predicate", "segtree min_left predicate",
          "lazy set", "lazy get", "lazy prod", "lazy apply", "lazy apply_range", "lazy max_right bound", "lazy min_left bound", "lazy max_right predicate", "lazy min_left predicate",
          "union-find find", "union-find size", "union-find join left", "union-find join right", "union-find is_same left", "union-find is_same right",
          "sparse get empty or reversed", "empty pattern", "empty pattern in from", "binary lifting root", "HLD root", "HLD initial values", "source", "sink", "choose k > n", "choose n > N", "perm k > n", "perm n > N", "zero modulus", "unparsable i64", "missing token"],
    )
}
