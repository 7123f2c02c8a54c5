//! C07 Dijkstra vs. Bellman-Ford, an exhaustive weight sweep, and an optimality certificate.
use rust_cp::graph::shortest_path::dijkstra;
use vmon::*;

type G = Vec<Vec<(usize, usize)>>;
fn bellman(g: &G, s: usize) -> Vec<Option<usize>> {
    let mut d: Vec<Option<u128>> = vec![None; g.len()];
    d[s] = Some(0);
    for _ in 0..g.len() {
        let mut ch = false;
        for u in 0..g.len() {
            if let Some(x) = d[u] {
                for &(v, w) in &g[u] {
                    let y = x + w as u128;
                    if d[v].map_or(true, |z| z > y) { d[v] = Some(y); ch = true; }
                }
            }
        }
        if !ch { break }
    }
    d.into_iter().map(|x| x.map(|y| usize::try_from(y).unwrap())).collect()
}
/// an answer is right iff: d[s] = 0, no edge can relax, every other finite vertex has a tight
/// chain of predecessors down to s (walked through tight edges), and exactly reachable ones are finite
fn certificate(c: &mut Case, g: &G, s: usize, d: &[Option<usize>]) {
    let n = g.len();
    check_eq!(c, d.len(), n, "length of the answer");
    check_eq!(c, d[s], Some(0), "distance of the source {}", s);
    let mut reach = vec![false; n];
    let mut tight = vec![false; n];
    for t in 0..2 {
        let seen = if t == 0 { &mut reach } else { &mut tight };
        let mut st = vec![s];
        seen[s] = true;
        while let Some(u) = st.pop() {
            for &(v, w) in &g[u] {
                let ok = t == 0 || (d[u].is_some() && d[v] == d[u].unwrap().checked_add(w));
                if ok && !seen[v] { seen[v] = true; st.push(v); }
            }
        }
    }
    for u in 0..n {
        check_eq!(c, d[u].is_some(), reach[u], "vertex {} has a distance / is reachable from {}", u, s);
        check!(c, !reach[u] || tight[u], "vertex {}: no path from {} has the reported length {:?}", u, s, d[u]);
        if let Some(x) = d[u] {
            for &(v, w) in &g[u] {
                check!(c, d[v].map_or(false, |y| y as u128 <= x as u128 + w as u128), "edge ({},{},{}) beats the reported distance {:?} of {} (source {})", u, v, w, d[v], v, s);
            }
        }
    }
}
fn log_graph(c: &mut Case, g: &G, s: usize) {
    let n = g.len();
    op!(c, 1, [n, s], "source {s}, graph {:?}", g);
    for r in g { c.h(r.len() as u64); for &(v, w) in r { c.h(v as u64); c.h(w as u64); } }
}
fn weights(c: &mut Case, cap: u128) -> Box<dyn Fn(&mut Rng) -> usize> {
    match c.rng.below(6) {
        0 => Box::new(|r| r.below(2)),
        1 => Box::new(|r| r.below(4)),
        2 => Box::new(|r| r.below(100)),
        3 => Box::new(|r| if r.chance(1, 2) { 0 } else { r.below(1_000_000_000) }),
        4 => { let k = (128 - (cap + 1).leading_zeros() - 1) as u32; Box::new(move |r| r.bits(k) as usize) }
        _ => Box::new(move |r| if r.chance(1, 3) { cap as usize } else { r.u64() as usize % (cap as usize) }),
    }
}
fn small(c: &mut Case) {
    let n = c.rng.range(1, 9);
    let m = c.rng.below(3 * n + 4);
    let e = gen::digraph(&mut c.rng, n, m);
    // sums along any simple path plus one edge stay below usize::MAX
    let cap = usize::MAX as u128 / (n as u128 + 1);
    let w = weights(c, cap);
    let mut g: G = vec![vec![]; n];
    for (a, b) in e { let x = w(&mut c.rng); g[a].push((b, x)) }
    for s in 0..n {
        if n > 3 && !c.rng.chance(1, 2) { continue }
        log_graph(c, &g, s);
        let d = dijkstra(&g, s);
        check_eq!(c, d, bellman(&g, s), "distances from {}", s);
        if d.iter().any(|x| x.is_none()) { c.hit("unreachable vertex") }
        if g[s].iter().any(|x| x.0 == s) { c.hit("self-loop at source") }
        if d.iter().flatten().any(|&x| x > usize::MAX / 4) { c.hit("huge distance") }
    }
    c.nontrivial = g.iter().map(|x| x.len()).sum::<usize>() > 1;
}
/// all digraphs on 3 vertices with every ordered pair absent or of weight 0..=3, in either
/// insertion order: 5^6 graphs, every source
fn exhaustive3(c: &mut Case) {
    let mut k = c.idx as usize;
    let pairs = [(0, 1), (0, 2), (1, 0), (1, 2), (2, 0), (2, 1)];
    let mut e = vec![];
    for p in pairs {
        let w = k % 5;
        k /= 5;
        if w > 0 { e.push((p, w - 1)) }
    }
    if k % 2 == 1 { e.reverse() }
    let mut g: G = vec![vec![]; 3];
    for ((a, b), w) in e { g[a].push((b, w)) }
    for s in 0..3 {
        log_graph(c, &g, s);
        check_eq!(c, dijkstra(&g, s), bellman(&g, s), "distances from {}", s);
    }
    c.nontrivial = true;
}
fn medium(c: &mut Case) {
    let n = c.rng.range(5, 120);
    let m = c.rng.below(8 * n);
    let e = gen::digraph(&mut c.rng, n, m);
    let cap = usize::MAX as u128 / (n as u128 + 1);
    let w = weights(c, cap);
    let mut g: G = vec![vec![]; n];
    for (a, b) in e { let x = w(&mut c.rng); g[a].push((b, x)) }
    let s = c.rng.below(n);
    log_graph(c, &g, s);
    let d = dijkstra(&g, s);
    certificate(c, &g, s, &d);
    check_eq!(c, d, bellman(&g, s), "distances from {}", s);
    c.nontrivial = g.iter().map(|x| x.len()).sum::<usize>() > 1;
}
/// path sums up to and including the largest value of the type: every tentative sum fits, many are exact
fn brim(c: &mut Case) {
    let n = c.rng.range(2, 12);
    let m = c.rng.below(3 * n + 4);
    let e = gen::digraph(&mut c.rng, n, m);
    let mut g: G = vec![vec![]; n];
    for (a, b) in e {
        let x = match c.rng.below(5) { 0 => c.rng.below(3), 1 => usize::MAX - c.rng.below(3), 2 => usize::MAX / 2 + c.rng.below(3), _ => c.rng.u64() as usize };
        g[a].push((b, x))
    }
    let s = c.rng.below(n);
    // arcs whose sum from a reachable tail exceeds the type are shortened to the limit or dropped
    for round in 0.. {
        let mut d: Vec<Option<u128>> = vec![None; n];
        d[s] = Some(0);
        for _ in 0..n { for u in 0..n { if let Some(x) = d[u] { for &(v, w) in &g[u] {
            let y = x + w as u128;
            if y <= usize::MAX as u128 && d[v].map_or(true, |z| z > y) { d[v] = Some(y) }
        } } } }
        let mut changed = false;
        for u in 0..n {
            let Some(x) = d[u] else { continue };
            let (mut keep, room) = (vec![], (usize::MAX as u128 - x) as usize);
            for (v, w) in std::mem::take(&mut g[u]) {
                if w <= room { keep.push((v, w)) } else { changed = true; if round < 2 && c.rng.chance(2, 3) { keep.push((v, room)) } }
            }
            g[u] = keep;
        }
        if !changed { break }
    }
    log_graph(c, &g, s);
    let d = dijkstra(&g, s);
    check_eq!(c, d, bellman(&g, s), "distances from {}", s);
    if d.iter().flatten().any(|&x| x == usize::MAX) { c.hit("distance of usize::MAX") }
    c.nontrivial = d.iter().flatten().count() > 1;
}
/// graphs on which many decrease-keys happen: later edges keep improving far vertices
fn decreasing(c: &mut Case) {
    let n = c.rng.range(3, 60);
    let mut g: G = vec![vec![]; n];
    let step = c.rng.range(1, 5);
    for i in 0..n {
        for j in i + 1..n {
            if j == i + 1 || c.rng.chance(3, 4) {
                let gap = (j - i) * step;
                g[i].push((j, if j == i + 1 { step } else { gap + c.rng.below(3 * (n - i)) + 1 }));
            }
        }
    }
    if c.rng.chance(1, 2) { for r in g.iter_mut() { r.reverse() } }
    let p = c.rng.perm(n);
    let mut h: G = vec![vec![]; n];
    for i in 0..n { for &(j, w) in &g[i] { h[p[i]].push((p[j], w)) } }
    let s = p[0];
    log_graph(c, &h, s);
    let d = dijkstra(&h, s);
    check_eq!(c, d, bellman(&h, s), "distances from {}", s);
    certificate(c, &h, s, &d);
    c.nontrivial = true;
}
/// every hub improves every target: the number of improvements is the product of two sizes
fn killer(c: &mut Case) {
    let (k, m) = match c.idx % 3 { 0 => (c.rng.range(2, 40), c.rng.range(2, 40)), 1 => (c.rng.range(30, 300), c.rng.range(30, 300)), _ => (c.rng.range(300, 900), c.rng.range(2, 60)) };
    let step = c.rng.range(2, 1000);
    let n = 1 + k + 2 * m;
    let mut g: G = vec![vec![]; n];
    // distances step, 2 step, .. to the hubs; hub i brings a target to base - (extra) * i
    let base = step * (k + 1) + k * 3 + c.rng.below(100);
    let chain = c.rng.chance(1, 2);
    for i in 0..k {
        if chain { g[if i == 0 { 0 } else { i }].push((i + 1, step)) } else { g[0].push((i + 1, step * (i + 1))) }
        for j in 0..m { if !c.rng.chance(1, 30) { g[i + 1].push((1 + k + j, base - 3 * i - step * (i + 1) + c.rng.below(3))) } }
    }
    for j in 0..m {
        let w = c.rng.below(3);
        g[1 + k + j].push((1 + k + m + j, w));
        if c.rng.chance(1, 2) { let t = 1 + k + c.rng.below(2 * m); let w = c.rng.below(5); g[1 + k + j].push((t, w)) }
    }
    if c.rng.chance(1, 2) { for r in g.iter_mut() { c.rng.shuffle(r) } }
    let p = if c.rng.chance(1, 2) { c.rng.perm(n) } else { (0..n).collect() };
    let mut h: G = vec![vec![]; n];
    for i in 0..n { for &(j, w) in &g[i] { h[p[i]].push((p[j], w)) } }
    op!(c, 2, [k, m, step], "{k} hubs that each improve {m} targets, step {step}, source {}", p[0]);
    c.h(h.iter().map(|r| r.iter().map(|x| x.1 as u64 ^ x.0 as u64).fold(0, u64::wrapping_add)).fold(0, |a, b| mix(a ^ b)));
    let d = dijkstra(&h, p[0]);
    certificate(c, &h, p[0], &d);
    c.nontrivial = true;
}
fn large(c: &mut Case) {
    let n = if c.exact > 0 { c.exact } else if c.giant { gen::giant_n(c) } else if c.idx % 4 == 0 { gen::huge_n(&mut c.rng) } else { c.rng.range(2000, 30_000) };
    let m = if c.giant { 2 } else { 4 } * n;
    let e = gen::digraph(&mut c.rng, n, m);
    let w = weights(c, usize::MAX as u128 / (n as u128 + 1));
    let mut g: G = vec![vec![]; n];
    for (a, b) in e { let x = w(&mut c.rng); g[a].push((b, x)) }
    let s = c.rng.below(n);
    op!(c, 1, [n, m, s], "random graph n={n}, source {s}");
    c.h(g.iter().map(|r| r.iter().map(|x| x.1 as u64 ^ x.0 as u64).fold(0, u64::wrapping_add)).fold(0, |a, b| mix(a ^ b)));
    let d = dijkstra(&g, s);
    certificate(c, &g, s, &d);
    c.max("largest n", n as u64);
    c.nontrivial = true;
}
/// the same around and above 2^20 elements
fn large_giant(c: &mut Case) {
    c.giant = true;
    large(c)
}
/// one case for every size
fn sizes(c: &mut Case) {
    c.exact = c.idx as usize + 1;
    large(c)
}
/// every vertex of one graph as the source
fn sources(c: &mut Case) {
    let n = if c.idx == 0 { c.rng.range(2100, 2400) } else { c.rng.range(300, 1100) };
    let e = gen::digraph(&mut c.rng, n, 3 * n);
    let w = weights(c, usize::MAX as u128 / (n as u128 + 1));
    let mut g: G = vec![vec![]; n];
    for (a, b) in e { let x = w(&mut c.rng); g[a].push((b, x)) }
    op!(c, 1, [n], "every source of a random graph, n={n}");
    c.h(g.iter().map(|r| r.iter().map(|x| x.1 as u64 ^ x.0 as u64).fold(0, u64::wrapping_add)).fold(0, |a, b| mix(a ^ b)));
    for s in 0..n { let d = dijkstra(&g, s); certificate(c, &g, s, &d) }
    c.nontrivial = true;
}
fn main() {
    run(
        &[
            Workload { name: "exhaustive3", quick: 31_250, thorough: 31_250, f: exhaustive3 },
            Workload { name: "small", quick: 300_000, thorough: 6_000_000, f: small },
            Workload { name: "brim", quick: 40_000, thorough: 800_000, f: brim },
            Workload { name: "decreasing", quick: 10_000, thorough: 160_000, f: decreasing },
            Workload { name: "killer", quick: 600, thorough: 12_000, f: killer },
            Workload { name: "medium", quick: 10_000, thorough: 160_000, f: medium },
            Workload { name: "large", quick: 36, thorough: 900, f: large },
            Workload { name: "sizes", quick: 4200, thorough: 16800, f: sizes },
            Workload { name: "sources", quick: 8, thorough: 60, f: sources },
            Workload { name: "giant", quick: 2, thorough: 24, f: large_giant },
        ],
        &["unreachable vertex", "self-loop at source", "huge distance", "distance of usize::MAX"],
    )
}
