//! C08 strongly connected components vs. reachability closure / an independent Kosaraju.
use rust_cp::graph::tarjan::scc;
use vmon::*;

fn check_scc(c: &mut Case, g: &Vec<Vec<usize>>, reps: &[usize], got: (usize, Vec<usize>)) {
    let n = g.len();
    let (cnt, col) = got;
    check_eq!(c, col.len(), n, "length of the component array");
    let mut used = vec![false; cnt];
    // reps[v]: oracle's canonical representative of v's component
    let mut of_rep = vec![usize::MAX; n];
    let mut rep_of = vec![usize::MAX; cnt];
    for v in 0..n {
        check!(c, col[v] < cnt, "component {} of vertex {} not below the count {}", col[v], v, cnt);
        used[col[v]] = true;
        let r = reps[v];
        if of_rep[r] == usize::MAX { of_rep[r] = col[v] }
        check!(c, of_rep[r] == col[v], "vertices {} and {} reach each other but have components {} and {}", v, r, col[v], of_rep[r]);
        if rep_of[col[v]] == usize::MAX { rep_of[col[v]] = r }
        check!(c, rep_of[col[v]] == r, "vertices {} and {} share component {} but do not reach each other", v, rep_of[col[v]], col[v]);
    }
    check!(c, used.iter().all(|x| *x), "component numbers are not exactly 0..{}: {:?}", cnt, col);
    for u in 0..n {
        for &v in &g[u] {
            check!(c, col[u] >= col[v], "edge {}->{} goes from component {} up to {}", u, v, col[u], col[v]);
        }
    }
    if cnt > 1 { c.hit("several components") }
    if cnt < n && cnt > 1 { c.hit("mixed components") }
    if n == 0 { c.hit("n=0") }
    c.nontrivial = n > 1 && g.iter().any(|x| !x.is_empty());
}
fn log_graph(c: &mut Case, g: &Vec<Vec<usize>>) {
    let n = g.len();
    op!(c, 1, [n], "graph {:?}", g);
    for r in g { c.h(r.len() as u64); for &v in r { c.h(v as u64); } }
}
fn closure(g: &Vec<Vec<usize>>) -> Vec<usize> {
    let n = g.len();
    let mut r: Vec<u128> = (0..n).map(|i| 1u128 << i).collect();
    for u in 0..n { for &v in &g[u] { r[u] |= 1 << v } }
    for k in 0..n { for i in 0..n { if r[i] >> k & 1 == 1 { r[i] |= r[k] } } }
    (0..n).map(|i| (0..n).find(|&j| r[i] >> j & 1 == 1 && r[j] >> i & 1 == 1).unwrap()).collect()
}
fn kosaraju(g: &Vec<Vec<usize>>) -> Vec<usize> {
    let n = g.len();
    let mut rg = vec![vec![]; n];
    for u in 0..n { for &v in &g[u] { rg[v].push(u) } }
    let mut order = vec![];
    let mut seen = vec![false; n];
    for s in 0..n {
        if seen[s] { continue }
        seen[s] = true;
        let mut st = vec![(s, 0)];
        while let Some((u, i)) = st.pop() {
            if i < g[u].len() {
                st.push((u, i + 1));
                let v = g[u][i];
                if !seen[v] { seen[v] = true; st.push((v, 0)); }
            } else { order.push(u) }
        }
    }
    let mut rep = vec![usize::MAX; n];
    for &s in order.iter().rev() {
        if rep[s] != usize::MAX { continue }
        rep[s] = s;
        let mut st = vec![s];
        while let Some(u) = st.pop() { for &v in &rg[u] { if rep[v] == usize::MAX { rep[v] = s; st.push(v); } } }
    }
    rep
}
fn exhaustive(c: &mut Case) {
    // all digraphs (self-loops excluded) on 0..=4 vertices
    let mut k = c.idx as usize;
    let mut n = 0usize;
    while n < 4 && k >= 1 << (n * n.max(1).saturating_sub(1)) {
        k -= 1 << (n * n.max(1).saturating_sub(1));
        n += 1;
    }
    let mut g = vec![vec![]; n];
    for i in 0..n { for j in 0..n { if i != j { if k & 1 == 1 { g[i].push(j) } k >>= 1; } } }
    let perm = c.rng.chance(1, 2);
    if perm { for r in g.iter_mut() { r.reverse() } }
    log_graph(c, &g);
    let reps = closure(&g);
    let got = scc(&g);
    check_scc(c, &g, &reps, got);
}
fn exhaustive5(c: &mut Case) {
    let mut k = c.idx;
    let mut g = vec![vec![]; 5];
    for i in 0..5 { for j in 0..5 { if i != j { if k & 1 == 1 { g[i].push(j) } k >>= 1; } } }
    log_graph(c, &g);
    let reps = closure(&g);
    let got = scc(&g);
    check_scc(c, &g, &reps, got);
}
fn small(c: &mut Case) {
    let n = c.rng.below(26);
    let m = c.rng.below(3 * n + 1);
    let e = gen::digraph(&mut c.rng, n, m);
    let g = gen::adj(n, &e);
    log_graph(c, &g);
    let reps = closure(&g);
    let got = scc(&g);
    check_scc(c, &g, &reps, got);
}
fn medium(c: &mut Case) {
    let n = c.rng.range(1, 110);
    let m = if c.giant { 2 * n } else { c.rng.below(4 * n) };
    let e = gen::digraph(&mut c.rng, n, m);
    let g = gen::adj(n, &e);
    log_graph(c, &g);
    let reps = closure(&g);
    check_eq!(c, kosaraju(&g).len(), n, "oracle");
    let got = scc(&g);
    check_scc(c, &g, &reps, got);
}
fn large(c: &mut Case) {
    let n = if c.exact > 0 { c.exact } else if c.giant { gen::giant_n(c) } else if c.idx % 4 == 0 { gen::huge_n(&mut c.rng) } else { c.rng.range(1000, 60_000) };
    let m = c.rng.below(4 * n);
    let e = gen::digraph(&mut c.rng, n, m);
    op!(c, 1, [n, e.len()], "random digraph n={n} m={}", e.len());
    c.h(e.iter().fold(0, |a, x| mix(a ^ x.0 as u64 ^ (x.1 as u64) << 32)));
    let g = gen::adj(n, &e);
    let reps = kosaraju(&g);
    let got = scc(&g);
    check_scc(c, &g, &reps, got);
    c.max("largest n", n as u64);
}
/// the same around and above 2^20 elements
fn large_giant(c: &mut Case) {
    c.giant = true;
    large(c)
}
/// one component that holds almost every vertex, with a few others before and behind it
fn dominant(c: &mut Case) {
    let n = if c.exact > 0 { c.exact } else if c.giant { gen::giant_n(c) + 64 } else if c.idx % 4 == 0 { gen::huge_n(&mut c.rng) } else { c.rng.range(100, 30_000) };
    let p = c.rng.perm(n);
    let rest = c.rng.range(2, 60).min(n / 2);
    let mut g = vec![vec![]; n];
    // p[rest..] lie on a cycle; p[..rest] hang off it, half in front and half behind
    let m = n - rest;
    for i in 0..m { g[p[rest + i]].push(p[rest + (i + 1) % m]) }
    for _ in 0..c.rng.below(n / 4 + 1) { let (a, b) = (c.rng.below(m), c.rng.below(m)); g[p[rest + a]].push(p[rest + b]) }
    for i in 0..rest {
        let x = p[rest + c.rng.below(m)];
        if i % 2 == 0 { g[p[i]].push(x) } else { g[x].push(p[i]) }
        if i >= 2 && c.rng.chance(1, 2) { if i % 2 == 0 { g[p[i]].push(p[i - 2]) } else { g[p[i - 2]].push(p[i]) } }
    }
    op!(c, 3, [n, rest], "one component of {m} of {n} vertices");
    c.h(p.iter().take(100).fold(0, |a, x| mix(a ^ *x as u64)));
    let reps = kosaraju(&g);
    let got = scc(&g);
    check_scc(c, &g, &reps, got);
    c.max("largest component", m as u64);
}
fn dominant_giant(c: &mut Case) {
    c.giant = true;
    dominant(c)
}
/// one case for every size
fn sizes(c: &mut Case) {
    c.exact = c.idx as usize + 1;
    if c.idx % 2 == 0 { c.exact = c.exact / 2 + 1; large(c) } else { c.exact = c.exact / 2 + 8; dominant(c) }
}
fn main() {
    run(
        &[
            Workload { name: "exhaustive4", quick: 1 + 1 + 4 + 64 + 4096, thorough: 1 + 1 + 4 + 64 + 4096, f: exhaustive },
            Workload { name: "exhaustive5", quick: 0, thorough: 1 << 20, f: exhaustive5 },
            Workload { name: "small", quick: 600_000, thorough: 8_000_000, f: small },
            Workload { name: "medium", quick: 15_000, thorough: 240_000, f: medium },
            Workload { name: "large", quick: 36, thorough: 600, f: large },
            Workload { name: "dominant", quick: 60, thorough: 1200, f: dominant },
            Workload { name: "sizes", quick: 8400, thorough: 33600, f: sizes },
            Workload { name: "giant", quick: 2, thorough: 24, f: large_giant },
            Workload { name: "giant-dominant", quick: 1, thorough: 12, f: dominant_giant },
        ],
        &["several components", "mixed components", "n=0"],
    )
}
