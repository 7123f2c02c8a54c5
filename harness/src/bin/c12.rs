//! C12 heavy-light decomposition vs. a per-vertex array.
use rust_cp::graph::heavy_light_decomp::HLD;
use rust_cp::traits::monoid::{MapMonoid, Monoid};
use std::fmt::Debug;
use vmon::gen::*;
use vmon::models::*;
use vmon::*;

type S<A> = <<A as MapMonoid>::M as Monoid>::S;
struct Sys<'t, A: MapMonoid> {
    h: HLD<A>,
    a: Vec<S<A>>,
    t: &'t Tree,
    updates: u64,
    hot: Vec<usize>,
}
fn fold<A: MapMonoid>(a: &[S<A>], vs: &[usize]) -> S<A> {
    vs.iter().fold(A::identity_element(), |x, &v| A::binary_operation(&x, &a[v]))
}
impl<'t, A: MapMonoid> Sys<'t, A>
where
    S<A>: PartialEq + Debug,
    A::F: Debug,
{
    fn construct(c: &mut Case, t: &'t Tree, gen: &mut dyn FnMut(&mut Rng) -> S<A>) -> Self {
        let n = t.n;
        let init = c.rng.chance(2, 3);
        op!(c, 1, [n, t.root, init], "tree {} n={} root={} adjacency {:?}", t.shape, n, t.root, t.g);
        c.h(t.par.iter().fold(0, |a, b| mix(a ^ *b as u64)));
        let (h, a): (HLD<A>, Vec<S<A>>) = if init {
            let a: Vec<_> = (0..n).map(|_| gen(&mut c.rng)).collect();
            op!(c, 2, [], "initial values {:?}", a);
            (HLD::with_init_value(&t.g, t.root, &a), a)
        } else {
            (HLD::new(&t.g, t.root), (0..n).map(|_| A::identity_element()).collect())
        };
        let mut s = Sys { h, a, t, updates: 0, hot: vec![] };
        // published positions: a permutation, and the published sequence holds the values there
        let mut seen = vec![false; n];
        for v in 0..n {
            let p = s.h.pos[v];
            check!(c, p < n && !seen[p], "pos is not a permutation: {:?}", s.h.pos);
            seen[p] = true;
        }
        if n <= 64 {
            for v in 0..n {
                let p = s.h.pos[v];
                check_eq!(c, s.h.data.get(p), s.a[v], "data.get(pos[{}]) after construction", v);
            }
        }
        if !init {
            for v in 0..n {
                if c.rng.chance(5, 6) {
                    let x = gen(&mut c.rng);
                    op!(c, 3, [v], "set({v},{:?})", x);
                    s.a[v] = x.clone();
                    s.h.set(v, x);
                }
            }
        }
        s
    }
    fn step(&mut self, c: &mut Case, gen: &mut dyn FnMut(&mut Rng) -> S<A>, gmap: &mut dyn FnMut(&mut Rng) -> A::F) {
        let n = self.t.n;
        let u = c.rng.below(n);
        let v = match c.rng.below(6) { 0 => u, 1 => self.t.root, 2 => self.t.par[u], 3 => *self.t.order.last().unwrap(), _ => c.rng.below(n) };
        let (u, v) = if self.hot.is_empty() { (u, v) } else { (if c.rng.chance(4, 5) { *c.rng.pick(&self.hot) } else { u }, if c.rng.chance(2, 3) { *c.rng.pick(&self.hot) } else { v }) };
        match c.rng.below(12) {
            0 | 1 => {
                let x = gen(&mut c.rng);
                op!(c, 3, [u], "set({u},{:?})", x);
                self.a[u] = x.clone();
                self.h.set(u, x);
            }
            2 => {
                op!(c, 4, [u], "get({u})");
                check_eq!(c, self.h.get(u), self.a[u], "get({})", u);
            }
            3 | 4 | 5 => {
                let f = gmap(&mut c.rng);
                op!(c, 5, [u, v], "apply_path({u},{v},{:?})", f);
                for w in self.t.path(u, v) { self.a[w] = A::mapping(&f, &self.a[w]) }
                self.h.apply_path(u, v, f);
                self.updates += 1;
            }
            6 | 7 => {
                let f = gmap(&mut c.rng);
                op!(c, 6, [u], "apply_subtree({u},{:?})", f);
                for w in self.t.subtree(u) { self.a[w] = A::mapping(&f, &self.a[w]) }
                self.h.apply_subtree(u, f);
                self.updates += 1;
            }
            8 | 9 => {
                op!(c, 7, [u, v], "path_prod({u},{v})");
                let p = self.t.path(u, v);
                c.max("longest path", p.len() as u64);
                check_eq!(c, self.h.path_prod(u, v), fold::<A>(&self.a, &p), "path_prod({},{})", u, v);
            }
            10 => {
                op!(c, 8, [u], "subtree_prod({u})");
                check_eq!(c, self.h.subtree_prod(u), fold::<A>(&self.a, &self.t.subtree(u)), "subtree_prod({})", u);
            }
            _ => {
                op!(c, 9, [], "data.all_prod()");
                let all: Vec<usize> = (0..n).collect();
                check_eq!(c, self.h.data.all_prod(), fold::<A>(&self.a, &all), "data.all_prod()");
            }
        }
    }
    fn finish(&mut self, c: &mut Case, lim: usize) {
        for v in 0..self.t.n.min(lim) {
            let p = self.h.pos[v];
            check_eq!(c, self.h.data.get(p), self.a[v], "final data.get(pos[{}])", v);
            check_eq!(c, self.h.get(v), self.a[v], "final get({})", v);
        }
        let all: Vec<usize> = (0..self.t.n).collect();
        check_eq!(c, self.h.subtree_prod(self.t.root), fold::<A>(&self.a, &all), "final product of the whole tree");
        c.nontrivial = self.t.n > 1 && self.updates > 0;
        if self.t.n == 1 { c.hit("n=1") }
        c.hit(self.t.shape);
    }
}
fn history<A: MapMonoid>(c: &mut Case, maxn: usize, maxops: usize, gen: &mut dyn FnMut(&mut Rng) -> S<A>, gmap: &mut dyn FnMut(&mut Rng) -> A::F)
where
    S<A>: PartialEq + Debug,
    A::F: Debug,
{
    let n = if c.giant { c.rng.range(1, 100) } else { c.size1(maxn) };
    let t = tree(&mut c.rng, n);
    let mut s = Sys::<A>::construct(c, &t, gen);
    let nops = if c.giant { c.rng.range(140_000, 200_000) } else { c.rng.range(2, maxops.min(10 + 2 * n)) };
    for _ in 0..nops { s.step(c, gen, gmap) }
    s.finish(c, 200);
}
fn bag_act(c: &mut Case) {
    let (mut id, mut m) = (0u16, 0u16);
    history::<BagAct>(c, 24, 30, &mut |r| { id += 1; if r.chance(1, 10) { vec![] } else { vec![(id, vec![])] } }, &mut |r| { m += 1; if r.chance(1, 12) { vec![] } else { vec![m] } });
}
fn bag_gen(r: &mut Rng) -> Bag { if r.chance(1, 20) { Bag { s: 0, t: 0, len: 0 } } else { Bag { s: r.u64() % modp::P, t: r.u64(), len: 1 } } }
fn aff_gen(r: &mut Rng) -> (u64, u64) { match r.below(5) { 0 => (0, r.u64() % modp::P), 1 => (1, r.u64() % 1000), 2 => (1, 0), _ => (r.u64() % modp::P, r.u64() % modp::P) } }
fn bag_aff(c: &mut Case) { history::<BagAff>(c, 400, 60, &mut bag_gen, &mut aff_gen) }
fn max_add(c: &mut Case) { history::<MaxAdd>(c, 200, 60, &mut |r| if r.chance(1, 12) { i64::MIN } else { r.irange(-50, 50) }, &mut |r| r.irange(-60, 60)) }
fn min_assign(c: &mut Case) {
    history::<MinAssign>(c, 200, 60, &mut |r| r.irange(-50, 50), &mut |r| match r.below(3) { 0 => (Some(r.irange(-40, 40)), 0), 1 => (None, r.irange(-20, 20)), _ => (Some(r.irange(-9, 9)), r.irange(-9, 9)) })
}
fn min_clamp(c: &mut Case) { history::<Clamp>(c, 200, 60, &mut |r| if r.chance(1, 12) { i64::MAX } else { r.irange(-50, 50) }, &mut |r| clamp(r)) }
/// every labelled tree on up to 5 (6 in thorough) vertices, every root: every path and subtree,
/// updated with a fresh map each, then read back
fn exhaustive(c: &mut Case) {
    let mut k = c.idx;
    let mut n = 1u64;
    loop {
        let cnt = if n <= 2 { 1 } else { n.pow(n as u32 - 2) };
        if k < cnt { break }
        k -= cnt;
        n += 1;
    }
    let n = n as usize;
    let mut e = prufer(n, k);
    c.rng.shuffle(&mut e);
    for root in 0..n {
        let t = tree_from_edges(n, &e, root, "pruefer");
        op!(c, 1, [n, root], "every path and subtree of {:?}, root {root}", e);
        for x in &e { c.h((x.0 * 8 + x.1) as u64) }
        let init: Vec<Vec<Cell>> = (0..n).map(|v| vec![(v as u16, vec![])]).collect();
        let mut h: HLD<BagAct> = HLD::with_init_value(&t.g, root, &init);
        let mut a = init.clone();
        let mut id = 0;
        for u in 0..n {
            for v in 0..n {
                id += 1;
                let p = t.path(u, v);
                h.apply_path(u, v, vec![id]);
                for &w in &p { a[w][0].1.push(id) }
                let (x, y) = (c.rng.below(n), c.rng.below(n));
                check_eq!(c, h.path_prod(x, y), fold::<BagAct>(&a, &t.path(x, y)), "path_prod({},{}) after apply_path({},{}) root {}", x, y, u, v, root);
            }
            id += 1;
            h.apply_subtree(u, vec![id]);
            let s = t.subtree(u);
            for &w in &s { a[w][0].1.push(id) }
            check_eq!(c, h.subtree_prod(u), fold::<BagAct>(&a, &s), "subtree_prod({}) root {}", u, root);
            for v in 0..n { check_eq!(c, h.get(v), a[v], "get({}) after apply_subtree({}) root {}", v, u, root) }
        }
        for u in 0..n { for v in 0..n { check_eq!(c, h.path_prod(u, v), fold::<BagAct>(&a, &t.path(u, v)), "path_prod({},{}) root {}", u, v, root) } }
    }
    c.nontrivial = n > 1;
}
fn large(c: &mut Case) {
    let n = if c.exact > 0 { c.exact } else if c.giant { gen::giant_n(c) } else if c.idx % 4 == 0 { gen::huge_n(&mut c.rng) } else { c.rng.range(2000, 20_000) };
    let t = tree(&mut c.rng, n);
    let mut s = Sys::<BagAff>::construct(c, &t, &mut bag_gen);
    for _ in 0..if c.exact > 0 { 30 } else { 60 } { s.step(c, &mut bag_gen, &mut aff_gen) }
    s.finish(c, 3000);
    c.max("largest n", n as u64);
}
/// a long path with leaves at remarkable depths: paths between all remarkable vertices
fn spines(c: &mut Case) {
    struct Sum;
    impl Monoid for Sum {
        type S = (u64, u64);
        fn identity() -> (u64, u64) { (0, 0) }
        fn binary_operation(a: &(u64, u64), b: &(u64, u64)) -> (u64, u64) { (a.0.wrapping_add(b.0), a.1 + b.1) }
    }
    struct Add;
    impl MapMonoid for Add {
        type M = Sum;
        type F = u64;
        fn identity_map() -> u64 { 0 }
        fn mapping(f: &u64, x: &(u64, u64)) -> (u64, u64) { (x.0.wrapping_add(f.wrapping_mul(x.1)), x.1) }
        fn composition(f: &u64, g: &u64) -> u64 { f.wrapping_add(*g) }
    }
    let len = (1usize << c.rng.range(3, 16)) + c.rng.below(5) - 2;
    let t = spine(&mut c.rng, len);
    let n = t.g.len();
    op!(c, 1, [len], "a path of {len} vertices with {} leaves, root {}", t.leaf.len(), t.root);
    let mut w: Vec<u64> = (0..n).map(|_| c.rng.u64()).collect();
    c.h(w[0]);
    let mut h: HLD<Add> = HLD::with_init_value(&t.g, t.root, &w.iter().map(|x| (*x, 1)).collect());
    let mut q: Vec<(usize, usize, bool)> = t.leaf.iter().map(|(d, v)| (*v, *d, true)).collect();
    q.extend(spots(len - 1).into_iter().map(|d| (t.at[d], d, false)));
    for round in 0..3 {
        let mut below = vec![0u64];
        for v in &t.at { below.push(below.last().unwrap().wrapping_add(w[*v])) }
        let mut under: Vec<(u64, u64)> = vec![(0, 0); len + 1];
        let mut side = vec![(0u64, 0u64); len];
        for (d, v) in &t.leaf { side[*d] = (side[*d].0.wrapping_add(w[*v]), side[*d].1 + 1) }
        for d in (0..len).rev() { under[d] = (under[d + 1].0.wrapping_add(w[t.at[d]]).wrapping_add(side[d].0), under[d + 1].1 + 1 + side[d].1) }
        for x in &q {
            for y in &q {
                let want = if x.0 == y.0 { (w[x.0], 1) } else {
                    let (l, r) = (x.1.min(y.1), x.1.max(y.1));
                    let mut s = (below[r + 1].wrapping_sub(below[l]), (r - l + 1) as u64);
                    for z in [x, y] { if z.2 { s = (s.0.wrapping_add(w[z.0]), s.1 + 1) } }
                    s
                };
                check_eq!(c, h.path_prod(x.0, y.0), want, "round {round}: path between depths {} and {}", x.1, y.1);
            }
            check_eq!(c, h.get(x.0), (w[x.0], 1), "round {round}: vertex at depth {}", x.1);
            check_eq!(c, h.subtree_prod(x.0), if x.2 { (w[x.0], 1) } else { under[x.1] }, "round {round}: subtree at depth {}", x.1);
        }
        // a few changes of paths, subtrees and vertices
        for _ in 0..20 {
            let (x, y, f) = (*c.rng.pick(&q), *c.rng.pick(&q), c.rng.u64());
            match c.rng.below(3) {
                0 => {
                    h.apply_path(x.0, y.0, f);
                    if x.0 == y.0 { w[x.0] = w[x.0].wrapping_add(f) } else {
                        for d in x.1.min(y.1)..=x.1.max(y.1) { w[t.at[d]] = w[t.at[d]].wrapping_add(f) }
                        for z in [x, y] { if z.2 { w[z.0] = w[z.0].wrapping_add(f) } }
                    }
                }
                1 => {
                    h.apply_subtree(x.0, f);
                    if x.2 { w[x.0] = w[x.0].wrapping_add(f) } else {
                        for d in x.1..len { w[t.at[d]] = w[t.at[d]].wrapping_add(f) }
                        for (d, v) in &t.leaf { if *d >= x.1 { w[*v] = w[*v].wrapping_add(f) } }
                    }
                }
                _ => { h.set(x.0, (f, 1)); w[x.0] = f }
            }
        }
    }
    c.max("longest path", len as u64);
    c.nontrivial = len > 2;
}
/// chains that begin very deep
fn deep(c: &mut Case) {
    let (t, hot) = deep_forks(&mut c.rng);
    let mut s = Sys::<BagAff>::construct(c, &t, &mut bag_gen);
    s.hot = hot;
    for _ in 0..400 { s.step(c, &mut bag_gen, &mut aff_gen) }
    s.finish(c, 3000);
    c.max("deepest tree", t.dep.iter().max().copied().unwrap_or(0) as u64);
}
/// the same around and above 2^20 elements
fn large_giant(c: &mut Case) {
    c.giant = true;
    large(c)
}
/// very many calls on one object
fn marathon(c: &mut Case) {
    c.giant = true;
    if c.idx % 2 == 0 { bag_aff(c) } else { min_assign(c) }
}
/// one case for every size
fn sizes(c: &mut Case) {
    c.exact = c.idx as usize + 1;
    large(c)
}
/// every vertex of one tree as the root, then every vertex as an argument
fn roots(c: &mut Case) {
    let n = if c.idx == 0 { c.rng.range(1030, 1300) } else { c.rng.range(300, 700) };
    let t = tree(&mut c.rng, n);
    let e: Vec<_> = (0..n).filter(|v| t.par[*v] != *v).map(|v| (t.par[v], v)).collect();
    for root in 0..n {
        let t = tree_from_edges(n, &e, root, t.shape);
        let mut s = Sys::<BagAff>::construct(c, &t, &mut bag_gen);
        s.hot = vec![root];
        for _ in 0..8 { s.step(c, &mut bag_gen, &mut aff_gen) }
    }
    let mut s = Sys::<BagAff>::construct(c, &t, &mut bag_gen);
    for v in 0..n {
        s.hot = vec![v];
        for _ in 0..8 { s.step(c, &mut bag_gen, &mut aff_gen) }
    }
    s.finish(c, n);
}
fn main() {
    run(
        &[
            Workload { name: "exhaustive", quick: 1 + 1 + 3 + 16 + 125, thorough: 1 + 1 + 3 + 16 + 125 + 1296, f: exhaustive },
            Workload { name: "free-bag", quick: 150_000, thorough: 2_400_000, f: bag_act },
            Workload { name: "affine-bag", quick: 50_000, thorough: 800_000, f: bag_aff },
            Workload { name: "max-add", quick: 50_000, thorough: 800_000, f: max_add },
            Workload { name: "min-assign", quick: 50_000, thorough: 800_000, f: min_assign },
            Workload { name: "min-clamp", quick: 50_000, thorough: 800_000, f: min_clamp },
            Workload { name: "large", quick: 36, thorough: 600, f: large },
            Workload { name: "spines", quick: 16, thorough: 200, f: spines },
            Workload { name: "deep", quick: 12, thorough: 200, f: deep },
            Workload { name: "sizes", quick: 1100, thorough: 4400, f: sizes },
            Workload { name: "roots", quick: 6, thorough: 24, f: roots },
            Workload { name: "giant", quick: 2, thorough: 24, f: large_giant },
            Workload { name: "marathon", quick: 4, thorough: 60, f: marathon },
        ],
        &["n=1", "path", "star", "caterpillar", "binary", "random", "broom", "spider", "deep-random", "double-star", "deep forks"],
    )
}
