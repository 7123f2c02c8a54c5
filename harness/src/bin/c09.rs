//! C09 bipartite matching vs. exhaustive / Hopcroft-Karp / Koenig-certificate oracles, incrementally.
use rust_cp::graph::bipartite_matching::AugmentedPath;
use vmon::*;

/// subset DP over the smaller side (exact, independent of augmenting paths); m <= 12
fn dp(n: usize, m: usize, e: &[(usize, usize)]) -> usize {
    let mut adj = vec![0u32; n];
    for &(u, v) in e { adj[u] |= 1 << v }
    let mut reach = vec![false; 1 << m];
    reach[0] = true;
    for u in 0..n {
        for s in (0..1usize << m).rev() {
            if !reach[s] { continue }
            let mut fr = adj[u] & !(s as u32);
            while fr != 0 {
                reach[s | 1 << fr.trailing_zeros()] = true;
                fr &= fr - 1;
            }
        }
    }
    (0..1usize << m).filter(|&s| reach[s]).map(|s| s.count_ones() as usize).max().unwrap()
}
/// Hopcroft-Karp followed by a Koenig vertex cover of equal size: self-certifying
fn hk(n: usize, m: usize, e: &[(usize, usize)]) -> usize {
    let mut g = vec![vec![]; n];
    for &(u, v) in e { g[u].push(v) }
    let (mut ml, mut mr) = (vec![usize::MAX; n], vec![usize::MAX; m]);
    loop {
        let mut d = vec![usize::MAX; n];
        let mut q: Vec<usize> = (0..n).filter(|&u| ml[u] == usize::MAX).collect();
        for &u in &q { d[u] = 0 }
        let mut i = 0;
        let mut found = false;
        while i < q.len() {
            let u = q[i];
            i += 1;
            for &v in &g[u] {
                let w = mr[v];
                if w == usize::MAX { found = true } else if d[w] == usize::MAX { d[w] = d[u] + 1; q.push(w) }
            }
        }
        if !found { break }
        let mut it = vec![0; n];
        for s in 0..n {
            if ml[s] != usize::MAX { continue }
            let mut st = vec![s];
            while let Some(&u) = st.last() {
                if it[u] == g[u].len() { d[u] = usize::MAX; st.pop(); continue }
                let v = g[u][it[u]];
                let w = mr[v];
                if w == usize::MAX {
                    // augment along the stack
                    for &x in st.iter().rev() { let y = g[x][it[x]]; ml[x] = y; mr[y] = x; }
                    for &x in &st { d[x] = usize::MAX }
                    break;
                }
                it[u] += 1;
                if d[w] == d[u].wrapping_add(1) && d[u] != usize::MAX { it[u] -= 1; st.push(w); d[w] = d[u] + 1; if it[w] == g[w].len() { st.pop(); it[u] += 1; } else { continue } }
            }
        }
    }
    let size = ml.iter().filter(|x| **x != usize::MAX).count();
    // Koenig
    let (mut zl, mut zr) = (vec![false; n], vec![false; m]);
    let mut st: Vec<usize> = (0..n).filter(|&u| ml[u] == usize::MAX).collect();
    for &u in &st { zl[u] = true }
    while let Some(u) = st.pop() {
        for &v in &g[u] { if !zr[v] { zr[v] = true; let w = mr[v]; if w != usize::MAX && !zl[w] { zl[w] = true; st.push(w) } } }
    }
    let cover = zl.iter().filter(|x| !**x).count() + zr.iter().filter(|x| **x).count();
    assert!(e.iter().all(|&(u, v)| !zl[u] || zr[v]), "oracle: not a cover");
    assert!(ml.iter().enumerate().all(|(u, &v)| v == usize::MAX || (mr[v] == u && g[u].contains(&v))), "oracle: not a matching");
    assert_eq!(size, cover, "oracle: cover and matching differ");
    size
}
fn oracle(n: usize, m: usize, e: &[(usize, usize)]) -> usize {
    if m <= 8 {
        dp(n, m, e)
    } else if n <= 8 {
        dp(m, n, &e.iter().map(|x| (x.1, x.0)).collect::<Vec<_>>())
    } else {
        hk(n, m, e)
    }
}
fn drive(c: &mut Case, n: usize, m: usize, e: &[(usize, usize)], stops: &[usize]) {
    let mut t = AugmentedPath::new(n, m);
    op!(c, 1, [n, m], "new({n},{m})");
    let mut k = 0;
    let mut last = 0;
    for (j, &s) in stops.iter().enumerate() {
        while k < s {
            let (u, v) = e[k];
            op!(c, 2, [u, v], "add_edge({u},{v})");
            t.add_edge(u, v);
            k += 1;
        }
        op!(c, 3, [], "solve()");
        let want = oracle(n, m, &e[..k]);
        check_eq!(c, t.solve(), want, "matching size after {} edges, sides {} and {}", k, n, m);
        if j > 0 && want > last { c.hit("grew after more edges") }
        if j > 0 && want == last && want > 0 { c.hit("re-solved without growth") }
        if want < n.min(m) && k >= n.min(m) { c.hit("deficient") }
        last = want;
        if c.rng.chance(1, 4) {
            op!(c, 3, [], "solve()");
            check_eq!(c, t.solve(), want, "second solve without change");
        }
    }
    if n == 0 || m == 0 { c.hit("empty side") }
    c.nontrivial = last > 0 && e.len() > 1;
}
fn edges(r: &mut Rng, n: usize, m: usize, max: usize) -> Vec<(usize, usize)> {
    if n == 0 || m == 0 { return vec![] }
    let mut e = vec![];
    match r.below(6) {
        0 => {
            // hidden perfect matching plus noise
            let p = r.perm(n.max(m));
            for i in 0..n { if p[i] < m { e.push((i, p[i])) } }
            for _ in 0..r.below(max + 1) { e.push((r.below(n), r.below(m))) }
        }
        1 => {
            // long alternating chain: greedy choices must be undone one by one
            for i in 0..n.min(m) { e.push((i, i)); if i + 1 < m { e.push((i, i + 1)); } }
            if n > m { e.push((m, 0)) }
            if r.chance(1, 2) { for x in e.iter_mut() { x.1 = m - 1 - x.1 } }
        }
        2 => {
            // Hall-deficient: many left vertices crowd into few right ones
            let k = 1 + r.below(m);
            for _ in 0..r.below(max + 1) { e.push((r.below(n), r.below(k))) }
        }
        3 => {
            // staircase: u adjacent to 0..=u
            for u in 0..n { for v in 0..=u.min(m - 1) { if e.len() < max.max(n * 2) { e.push((u, v)) } } }
        }
        _ => for _ in 0..r.below(max + 1) { e.push((r.below(n), r.below(m))) },
    }
    if !e.is_empty() && r.chance(1, 4) { let x = *r.pick(&e); e.push(x) }
    if r.chance(2, 3) {
        let (p, q) = (r.perm(n), r.perm(m));
        for x in e.iter_mut() { *x = (p[x.0], q[x.1]) }
    }
    if r.chance(2, 3) { r.shuffle(&mut e) }
    e
}
fn stops(r: &mut Rng, k: usize) -> Vec<usize> {
    let mut s: Vec<usize> = (0..r.below(6)).map(|_| r.below(k + 1)).collect();
    if k <= 30 && r.chance(1, 4) { s = (0..=k).collect() }
    s.push(k);
    s.sort();
    s
}
/// all bipartite graphs on a x b, a,b <= 4 up to 3x4 / 4x3 (quick) or 4x4 (thorough)
fn exhaustive(c: &mut Case) {
    let sizes = [(0, 0), (0, 3), (3, 0), (1, 1), (1, 3), (3, 1), (2, 2), (2, 3), (3, 2), (3, 3), (2, 4), (4, 2), (3, 4), (4, 3), (4, 4)];
    let mut k = c.idx as usize;
    let mut i = 0;
    while k >= 1 << (sizes[i].0 * sizes[i].1) {
        k -= 1 << (sizes[i].0 * sizes[i].1);
        i += 1;
    }
    let (n, m) = sizes[i];
    let mut e: Vec<(usize, usize)> = (0..n * m).filter(|j| k >> j & 1 == 1).map(|j| (j / m, j % m)).collect();
    if c.rng.chance(1, 2) { c.rng.shuffle(&mut e) }
    let s = if c.rng.chance(1, 2) { vec![e.len()] } else { (0..=e.len()).collect() };
    drive(c, n, m, &e, &s);
}
fn small(c: &mut Case) {
    let (n, m) = (c.rng.below(11), c.rng.below(9));
    let (n, m) = if c.rng.chance(1, 2) { (n, m) } else { (m, n) };
    let max = c.rng.below(n * m + 4);
    let e = edges(&mut c.rng, n, m, max);
    let s = stops(&mut c.rng, e.len());
    drive(c, n, m, &e, &s);
}
fn medium(c: &mut Case) {
    let (n, m) = (c.rng.range(1, 80), c.rng.range(1, 80));
    let max = c.rng.below(5 * n.max(m));
    let e = edges(&mut c.rng, n, m, max);
    let s = stops(&mut c.rng, e.len());
    drive(c, n, m, &e, &s);
}
fn large(c: &mut Case) {
    let (n, m) = if c.exact > 0 { let o = match c.rng.below(4) { 0 => c.exact, 1 => c.exact + 1, 2 => c.exact - 1, _ => c.rng.range(1, 2 * c.exact) }; if c.rng.chance(1, 2) { (c.exact, o) } else { (o, c.exact) } } else if c.giant { (gen::giant_n(c), gen::giant_n(c)) } else if c.idx % 12 == 0 { (gen::huge_n(&mut c.rng), gen::huge_n(&mut c.rng)) } else { (c.rng.range(300, 3000), c.rng.range(300, 3000)) };
    let e = if n > 3000 {
        // many small blocks, scattered over all the numbers, so that the textbook O(V E) search would also do
        let (pu, pv) = (c.rng.perm(n), c.rng.perm(m));
        let (mut i, mut j, mut e) = (0, 0, vec![]);
        while i < n && j < m {
            let (a, b) = (c.rng.range(1, 30).min(n - i), c.rng.range(1, 30).min(m - j));
            for _ in 0..c.rng.below(3 * a.max(b)) { e.push((pu[i + c.rng.below(a)], pv[j + c.rng.below(b)])) }
            i += a;
            j += b;
        }
        c.rng.shuffle(&mut e);
        e
    } else { let max = 3 * n.max(m); edges(&mut c.rng, n, m, max) };
    let s = vec![e.len() / 2, e.len()];
    drive(c, n, m, &e, &s);
    c.max("largest side", n.max(m) as u64);
}
const EX_QUICK: u64 = 3 + 2 + 8 + 8 + 16 + 64 + 64 + 512 + 256 + 256 + 4096 + 4096;
/// the same around and above 2^20 elements
fn large_giant(c: &mut Case) {
    c.giant = true;
    large(c)
}
/// very many solve calls on one object, edges added now and then
fn marathon(c: &mut Case) {
    let (n, m) = (c.rng.range(1, 12), c.rng.range(1, 12));
    let mut t = AugmentedPath::new(n, m);
    let (mut e, mut want) = (vec![], 0);
    let calls = c.rng.range(140_000, 200_000);
    op!(c, 5, [n, m, calls], "{calls} calls, sides {n} and {m}");
    for k in 0..calls {
        c.ops += 1;
        if c.rng.chance(1, 1000) || k == calls - 1 {
            let (u, v) = (c.rng.below(n), c.rng.below(m));
            t.add_edge(u, v);
            e.push((u, v));
            want = oracle(n, m, &e);
        }
        check_eq!(c, t.solve(), want, "matching size at call {} after {} edges", k, e.len());
    }
    c.nontrivial = want > 0;
}
/// edges one by one with a question or more after most of them: hundreds of phases, and long pauses
/// between two visits of the same vertex
fn incremental(c: &mut Case) {
    let (n, m) = (c.rng.range(20, 400), c.rng.range(20, 400));
    let mut t = AugmentedPath::new(n, m);
    let (mut e, mut want) = (vec![], 0);
    let total = c.rng.range(n.max(m), 3 * n.max(m));
    let band = c.rng.chance(1, 2);
    op!(c, 6, [n, m, total], "{total} edges one by one, sides {n} and {m}");
    for _ in 0..total {
        let u = c.rng.below(n);
        let v = if band { (u * m / n + c.rng.below(6)) % m } else { c.rng.below(m) };
        op!(c, 2, [u, v], "add_edge({u},{v})");
        t.add_edge(u, v);
        e.push((u, v));
        if c.rng.chance(1, 4) { continue }
        want = oracle(n, m, &e);
        for _ in 0..1 + c.rng.below(3) / 2 {
            op!(c, 3, [], "solve()");
            check_eq!(c, t.solve(), want, "matching size after {} edges, sides {} and {}", e.len(), n, m);
        }
    }
    c.nontrivial = want > 0;
}
/// one case for every size
fn sizes(c: &mut Case) {
    c.exact = c.idx as usize + 2;
    large(c)
}
fn main() {
    run(
        &[
            Workload { name: "exhaustive", quick: EX_QUICK, thorough: EX_QUICK + 65536, f: exhaustive },
            Workload { name: "small", quick: 600_000, thorough: 8_000_000, f: small },
            Workload { name: "medium", quick: 30_000, thorough: 400_000, f: medium },
            Workload { name: "large", quick: 36, thorough: 600, f: large },
            Workload { name: "sizes", quick: 2100, thorough: 8400, f: sizes },
            Workload { name: "giant", quick: 2, thorough: 24, f: large_giant },
            Workload { name: "marathon", quick: 4, thorough: 60, f: marathon },
            Workload { name: "incremental", quick: 96, thorough: 4000, f: incremental },
        ],
        &["grew after more edges", "re-solved without growth", "deficient", "empty side"],
    )
}
