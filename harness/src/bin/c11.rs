//! C11 binary lifting vs. walking up the tree.
use rust_cp::graph::binary_lifting::BinaryLifting;
use vmon::gen::*;
use vmon::*;

fn up(t: &Tree, mut v: usize, k: usize) -> usize {
    for _ in 0..k.min(t.n) { v = t.par[v] }
    v
}
fn pair(c: &mut Case, b: &BinaryLifting, t: &Tree, u: usize, v: usize) {
    let l = t.lca(u, v);
    check_eq!(c, b.is_ancestor(u, v), l == u, "is_ancestor({},{}) root {}", u, v, t.root);
    check_eq!(c, b.lca(u, v), l, "lca({},{}) root {}", u, v, t.root);
    check_eq!(c, b.dis(u, v), t.dep[u] + t.dep[v] - 2 * t.dep[l], "dis({},{}) root {}", u, v, t.root);
}
fn tables(c: &mut Case, b: &BinaryLifting, t: &Tree) {
    check_eq!(c, b.dep.len(), t.n, "length of dep");
    check_eq!(c, b.pa.len(), t.n, "length of pa");
    for v in 0..t.n {
        check_eq!(c, b.dep[v], t.dep[v], "dep[{}] root {}", v, t.root);
        let mut a = t.par[v];
        for j in 0..b.pa[v].len() {
            // 2^j-th ancestor, stopping at the root
            if j > 0 { a = if j < 20 { let k = 1usize << (j - 1); up(t, a, k) } else { t.root } }
            check_eq!(c, b.pa[v][j], a, "pa[{}][{}] root {}", v, j, t.root);
        }
    }
}
/// the entry times inside [tin, tout) are exactly those of the subtree
fn times(c: &mut Case, b: &BinaryLifting, t: &Tree) {
    check_eq!(c, b.tin.len(), t.n, "length of tin");
    check_eq!(c, b.tout.len(), t.n, "length of tout");
    let mut all: Vec<usize> = b.tin.clone();
    all.sort_unstable();
    check!(c, all.windows(2).all(|w| w[0] < w[1]), "two vertices share an entry time: {:?}", &b.tin[..t.n.min(50)]);
    // subtree sizes and extreme entry times, bottom up
    let (mut size, mut last) = (vec![1usize; t.n], b.tin.clone());
    for &v in t.order.iter().rev() {
        let p = t.par[v];
        if p != v {
            size[p] += size[v];
            last[p] = last[p].max(last[v]);
            check!(c, b.tin[p] < b.tin[v], "tin[{}] = {} of a child of {} with tin {}", v, b.tin[v], p, b.tin[p]);
        }
        let (lo, hi) = (all.partition_point(|&x| x < b.tin[v]), all.partition_point(|&x| x < b.tout[v]));
        let inside = hi.saturating_sub(lo);
        check!(c, last[v] < b.tout[v] && inside == size[v], "[{}, {}) of vertex {} holds {} entry times, its subtree has {} vertices, the last at {}", b.tin[v], b.tout[v], v, inside, size[v], last[v]);
    }
}
fn log_tree(c: &mut Case, t: &Tree) {
    op!(c, 1, [t.n, t.root], "tree {} n={} root={} adjacency {:?}", t.shape, t.n, t.root, t.g);
    for v in 0..t.n { c.h(t.par[v] as u64) }
}
/// every labelled tree on 1..=6 (7 in thorough) vertices, every root, every pair
fn exhaustive(c: &mut Case) {
    let mut k = c.idx;
    let mut n = 1u64;
    loop {
        let cnt = if n <= 2 { 1 } else { n.pow(n as u32 - 2) };
        if k < cnt { break }
        k -= cnt;
        n += 1;
    }
    let mut e = prufer(n as usize, k);
    c.rng.shuffle(&mut e);
    for root in 0..n as usize {
        let t = tree_from_edges(n as usize, &e, root, "pruefer");
        log_tree(c, &t);
        let b = BinaryLifting::from(&t.g, root);
        tables(c, &b, &t);
        times(c, &b, &t);
        for u in 0..t.n { for v in 0..t.n { pair(c, &b, &t, u, v) } }
    }
    c.nontrivial = n > 1;
}
fn medium(c: &mut Case) {
    let n = c.size1(120);
    let t = tree(&mut c.rng, n);
    log_tree(c, &t);
    let b = BinaryLifting::from(&t.g, t.root);
    tables(c, &b, &t);
    times(c, &b, &t);
    if n <= 24 {
        for u in 0..n { for v in 0..n { pair(c, &b, &t, u, v) } }
    } else {
        for _ in 0..80 { let (u, v) = (c.rng.below(n), c.rng.below(n)); pair(c, &b, &t, u, v) }
    }
    c.hit(t.shape);
    c.nontrivial = n > 1;
}
/// long paths of every length around powers of two: the jump table has no spare level
fn paths(c: &mut Case) {
    let n = c.idx as usize + 1;
    let lab = c.rng.perm(n);
    let e: Vec<_> = (1..n).map(|i| (lab[i - 1], lab[i])).collect();
    let root = match c.rng.below(3) { 0 => lab[0], 1 => lab[n - 1], _ => lab[n / 2] };
    let t = tree_from_edges(n, &e, root, "path");
    log_tree(c, &t);
    let b = BinaryLifting::from(&t.g, root);
    tables(c, &b, &t);
    times(c, &b, &t);
    for _ in 0..30 { let (u, v) = (c.rng.below(n), c.rng.below(n)); pair(c, &b, &t, u, v) }
    pair(c, &b, &t, lab[0], lab[n - 1]);
    // a path with one extra leaf hanging at each place
    let h = c.rng.below(n);
    let mut e2 = e.clone();
    e2.push((lab[h], n));
    let t = tree_from_edges(n + 1, &e2, root, "path+leaf");
    log_tree(c, &t);
    let b = BinaryLifting::from(&t.g, root);
    for v in 0..=n { pair(c, &b, &t, n, v); pair(c, &b, &t, v, n) }
    c.nontrivial = n > 1;
}
fn large(c: &mut Case) {
    let n = if c.exact > 0 { c.exact } else if c.giant { gen::giant_n(c) } else if c.idx % 20 == 0 { gen::huge_n(&mut c.rng) } else { (1usize << c.rng.range(10, 13)) + c.rng.below(3) - 1 };
    let t = tree(&mut c.rng, n);
    op!(c, 1, [n, t.root], "large tree {} n={n} root={}", t.shape, t.root);
    c.h(t.par.iter().fold(0, |a, b| mix(a ^ *b as u64)));
    let b = BinaryLifting::from(&t.g, t.root);
    check_eq!(c, b.dep, t.dep, "dep");
    times(c, &b, &t);
    for _ in 0..if c.giant { 4 } else { 60 } {
        let v = c.rng.below(n);
        for j in 0..b.pa[v].len() { check_eq!(c, b.pa[v][j], up(&t, v, 1 << j.min(30)), "pa[{}][{}]", v, j) }
        let u = c.rng.below(n);
        pair(c, &b, &t, u, v);
        let anc = { let k = c.rng.below(n); up(&t, v, k) };
        pair(c, &b, &t, anc, v);
        pair(c, &b, &t, v, anc);
    }
    c.max("largest n", n as u64);
    c.nontrivial = true;
}
/// a long path with leaves at remarkable depths: every pair of remarkable vertices
fn spines(c: &mut Case) {
    let h = (1usize << c.rng.range(3, 17)) + c.rng.below(5) - 2;
    let t = spine(&mut c.rng, h);
    op!(c, 1, [h], "a path of {h} vertices with {} leaves, root {}", t.leaf.len(), t.root);
    c.h(t.at.iter().take(50).fold(0, |a, b| mix(a ^ *b as u64)));
    let b = BinaryLifting::from(&t.g, t.root);
    for (i, v) in t.at.iter().enumerate() { check_eq!(c, b.dep[*v], i, "dep[{}]", v) }
    // (vertex, where it meets the path, distance from there)
    let mut q: Vec<(usize, usize, usize)> = t.leaf.iter().map(|(d, v)| (*v, *d, 1)).collect();
    q.extend(spots(h - 1).into_iter().map(|d| (t.at[d], d, 0)));
    for _ in 0..20 { let d = c.rng.below(h); q.push((t.at[d], d, 0)) }
    for x in &q {
        for y in &q {
            let (lca, dis) = if x.0 == y.0 { (x.0, 0) } else { (t.at[x.1.min(y.1)], x.1.abs_diff(y.1) + x.2 + y.2) };
            check_eq!(c, b.lca(x.0, y.0), lca, "lca of vertices at depths {} and {}", x.1 + x.2, y.1 + y.2);
            check_eq!(c, b.dis(x.0, y.0), dis, "dis of vertices at depths {} and {}", x.1 + x.2, y.1 + y.2);
            check_eq!(c, b.is_ancestor(x.0, y.0), x.0 == lca, "is_ancestor of vertices at depths {} and {}", x.1 + x.2, y.1 + y.2);
        }
    }
    c.max("longest path", h as u64);
    c.nontrivial = h > 2;
}
/// branches that begin very deep
fn deep(c: &mut Case) {
    let (t, hot) = deep_forks(&mut c.rng);
    op!(c, 1, [t.n, t.root], "{} n={} root={}", t.shape, t.n, t.root);
    c.h(t.par.iter().fold(0, |a, b| mix(a ^ *b as u64)));
    let b = BinaryLifting::from(&t.g, t.root);
    check_eq!(c, b.dep, t.dep, "dep");
    times(c, &b, &t);
    for _ in 0..200 {
        let (u, v) = (*c.rng.pick(&hot), if c.rng.chance(1, 4) { c.rng.below(t.n) } else { *c.rng.pick(&hot) });
        pair(c, &b, &t, u, v);
    }
    c.hit(t.shape);
    c.nontrivial = true;
}
/// the same around and above 2^20 elements
fn large_giant(c: &mut Case) {
    c.giant = true;
    large(c)
}
/// one case for every size
fn sizes(c: &mut Case) {
    c.exact = c.idx as usize + 1;
    large(c)
}
/// every vertex of one tree as the root
fn roots(c: &mut Case) {
    let n = if c.idx == 0 { c.rng.range(2100, 2400) } else { c.rng.range(300, 1100) };
    let t = tree(&mut c.rng, n);
    let e: Vec<_> = (0..n).filter(|v| t.par[*v] != *v).map(|v| (t.par[v], v)).collect();
    log_tree(c, &t);
    for root in 0..n {
        let t = tree_from_edges(n, &e, root, t.shape);
        let b = BinaryLifting::from(&t.g, root);
        check_eq!(c, b.dep, t.dep, "dep, root {}", root);
        times(c, &b, &t);
        for _ in 0..6 {
            let (u, v) = (c.rng.below(n), c.rng.below(n));
            pair(c, &b, &t, u, v);
            pair(c, &b, &t, root, v);
            pair(c, &b, &t, v, root);
            let k = c.rng.below(n);
            pair(c, &b, &t, up(&t, v, k), v);
        }
    }
    c.nontrivial = true;
}
fn main() {
    run(
        &[
            Workload { name: "exhaustive", quick: 1 + 1 + 3 + 16 + 125 + 1296, thorough: 1 + 1 + 3 + 16 + 125 + 1296 + 16807, f: exhaustive },
            Workload { name: "paths", quick: 140, thorough: 1100, f: paths },
            Workload { name: "medium", quick: 100_000, thorough: 1_600_000, f: medium },
            Workload { name: "large", quick: 180, thorough: 3000, f: large },
            Workload { name: "spines", quick: 24, thorough: 300, f: spines },
            Workload { name: "deep", quick: 12, thorough: 200, f: deep },
            Workload { name: "sizes", quick: 2200, thorough: 8800, f: sizes },
            Workload { name: "roots", quick: 8, thorough: 40, f: roots },
            Workload { name: "giant", quick: 2, thorough: 24, f: large_giant },
        ],
        &["path", "star", "caterpillar", "binary", "random", "broom", "spider", "deep-random", "double-star"],
    )
}
