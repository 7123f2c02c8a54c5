//! C10 Dinic vs. minimum cut over all subsets / an independent Edmonds-Karp with its own cut
//! certificate, for every capacity type, incrementally.
use rust_cp::graph::max_flow::Dinic;
use rust_cp::traits::integral::Integral;
use vmon::*;

type E = (usize, usize, u128);
fn min_cut(n: usize, e: &[E], s: usize, t: usize) -> u128 {
    let mut best = u128::MAX;
    for mask in 0..1usize << n {
        if mask >> s & 1 == 0 || mask >> t & 1 == 1 { continue }
        let mut cut = 0u128;
        for &(u, v, w) in e { if mask >> u & 1 == 1 && mask >> v & 1 == 0 { cut = cut.saturating_add(w) } }
        best = best.min(cut);
    }
    best
}
/// shortest augmenting paths in u128; asserts its own cut
fn ek(n: usize, e: &[E], s: usize, t: usize) -> u128 {
    let mut to = vec![];
    let mut cap: Vec<u128> = vec![];
    let mut g = vec![vec![]; n];
    for &(u, v, w) in e {
        g[u].push(to.len());
        to.push(v);
        cap.push(w);
        g[v].push(to.len());
        to.push(u);
        cap.push(0);
    }
    let mut flow = 0u128;
    loop {
        let mut pre = vec![usize::MAX; n];
        let mut seen = vec![false; n];
        seen[s] = true;
        let mut q = vec![s];
        let mut i = 0;
        while i < q.len() && !seen[t] {
            let u = q[i];
            i += 1;
            for &j in &g[u] { if cap[j] > 0 && !seen[to[j]] { seen[to[j]] = true; pre[to[j]] = j; q.push(to[j]) } }
        }
        if !seen[t] {
            let cut: u128 = e.iter().filter(|x| seen[x.0] && !seen[x.1]).map(|x| x.2).sum();
            assert_eq!(cut, flow, "oracle: cut certificate");
            return flow;
        }
        let mut a = u128::MAX;
        let mut v = t;
        while v != s { let j = pre[v]; a = a.min(cap[j]); v = to[j ^ 1] }
        v = t;
        while v != s { let j = pre[v]; cap[j] -= a; cap[j ^ 1] += a; v = to[j ^ 1] }
        flow += a;
    }
}
fn oracle(n: usize, e: &[E], s: usize, t: usize) -> u128 {
    if n <= 8 { min_cut(n, e, s, t) } else { ek(n, e, s, t) }
}
fn drive<C: Integral>(c: &mut Case, n: usize, e: &[E], stops: &[usize], s: usize, t: usize, max: u128, conv: fn(u128) -> C, back: fn(C) -> u128) {
    // keep the in-contract prefix: the maximum flow must fit the type
    let mut d = Dinic::<C>::new(n);
    op!(c, 1, [n, s, t], "new({n}), s={s}, t={t}, capacities up to {max}");
    let (mut k, mut prev) = (0, 0u128);
    for (j, &stop) in stops.iter().enumerate() {
        let want = oracle(n, &e[..stop], s, t);
        if want > max { c.hit("stopped before overflow"); break }
        while k < stop {
            let (u, v, w) = e[k];
            op!(c, 2, [u, v, w as u64], "add_edge({u},{v},{w})");
            d.add_edge(u, v, conv(w));
            k += 1;
        }
        op!(c, 3, [], "get_max_flow({s},{t})");
        let got = back(d.get_max_flow(s, t));
        check_eq!(c, got, want - prev, "flow {}->{} after {} edges, {} routed before", s, t, k, prev);
        if j > 0 && want > prev { c.hit("grew after more edges") }
        if want == max { c.hit("flow equals the type's maximum") }
        if want == 0 { c.hit("zero flow") } else { c.nontrivial = true }
        prev = want;
        if c.rng.chance(1, 3) {
            op!(c, 3, [], "get_max_flow({s},{t})");
            check_eq!(c, back(d.get_max_flow(s, t)), 0, "asking again without change");
        }
    }
}
fn net(r: &mut Rng, n: usize, mmax: usize, max: u128) -> (Vec<E>, usize, usize) {
    let e = gen::digraph(r, n, mmax);
    let bits = 128 - max.leading_zeros();
    let style = r.below(7);
    let cap = |r: &mut Rng| -> u128 {
        match style {
            0 => 1.min(max),
            1 => r.below(4) as u128,
            2 => r.below(100) as u128 % max,
            3 => r.bits(bits).min(max),
            4 => if r.chance(1, 3) { max } else { r.below(5) as u128 },
            5 => max,
            _ => if r.chance(1, 4) { 0 } else { (r.u128() >> 1) % (max / (1 + mmax as u128) + 1) },
        }
    };
    let mut out: Vec<E> = vec![];
    for (u, v) in e {
        let w = cap(r);
        out.push((u, v, w));
        if r.chance(1, 8) { let w = cap(r); out.push((v, u, w)) }
    }
    let s = r.below(n);
    let mut t = r.below(n - 1);
    if t >= s { t += 1 }
    // often: layered network from s to t with back and dead-end edges
    if r.chance(1, 3) && n >= 4 {
        let k = 2 + r.below(4);
        let lay: Vec<usize> = (0..n).map(|v| if v == s { 0 } else if v == t { k } else { 1 + r.below(k) }).collect();
        for u in 0..n { for v in 0..n { if lay[v] == lay[u] + 1 && r.chance(1, 2) { let w = cap(r); out.push((u, v, w)) } else if lay[v] <= lay[u] && u != v && r.chance(1, 8) { let w = cap(r); out.push((u, v, w)) } } }
        if r.chance(1, 2) { r.shuffle(&mut out) }
    }
    (out, s, t)
}
fn stops(r: &mut Rng, k: usize) -> Vec<usize> {
    let mut s: Vec<usize> = (0..r.below(4)).map(|_| r.below(k + 1)).collect();
    if k <= 16 && r.chance(1, 4) { s = (0..=k).collect() }
    s.push(k);
    s.sort();
    s
}
macro_rules! dispatch {
    ($c:expr, $n:expr, $e:expr, $st:expr, $s:expr, $t:expr, $k:expr; $($i:expr => $ty:ty),*) => {
        match $k { $( $i => drive::<$ty>($c, $n, $e, $st, $s, $t, <$ty>::MAX as u128, |x| x as $ty, |x| { if (x as i128) < 0 && stringify!($ty) != "u128" { violation(format!("negative flow {x}")) } x as u128 }), )* _ => unreachable!() }
    };
}
const MAXES: [u128; 12] = [i8::MAX as u128, u8::MAX as u128, i16::MAX as u128, u16::MAX as u128, i32::MAX as u128, u32::MAX as u128, i64::MAX as u128, u64::MAX as u128, isize::MAX as u128, usize::MAX as u128, i128::MAX as u128, u128::MAX];
fn go(c: &mut Case, n: usize, mmax: usize, k: usize) {
    // the subset oracle saturates, so a 128-bit total is capped well below u128::MAX
    let max = MAXES[k].min(u128::MAX >> 12);
    let (e, s, t) = net(&mut c.rng, n, mmax, max);
    let st = stops(&mut c.rng, e.len());
    c.h(k as u64);
    dispatch!(c, n, &e, &st, s, t, k; 0 => i8, 1 => u8, 2 => i16, 3 => u16, 4 => i32, 5 => u32, 6 => i64, 7 => u64, 8 => isize, 9 => usize, 10 => i128, 11 => u128);
    c.hit(["i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "isize", "usize", "i128", "u128"][k]);
}
fn small(c: &mut Case) {
    let n = c.rng.range(2, 8);
    let m = c.rng.below(4 * n);
    let k = c.rng.below(12);
    go(c, n, m, k);
}
fn medium(c: &mut Case) {
    let n = c.rng.range(6, 60);
    let m = c.rng.below(6 * n);
    let k = c.rng.below(12);
    go(c, n, m, k);
}
fn large(c: &mut Case) {
    let n = c.rng.range(60, 260);
    let m = 5 * n;
    let k = *c.rng.pick(&[4, 6, 7, 9]);
    go(c, n, m, k);
    c.max("largest n", n as u64);
}
/// unit-capacity bipartite networks: flow = matching (augmenting through reverse edges)
fn bip(c: &mut Case) {
    let (a, b) = (c.rng.range(1, 40), c.rng.range(1, 40));
    let n = a + b + 2;
    let mut e: Vec<E> = vec![];
    for u in 0..a { e.push((a + b, u, 1)) }
    for v in 0..b { e.push((a + v, a + b + 1, 1)) }
    for i in 0..a.min(b) { e.push((i, a + i, 1)); if i + 1 < b { e.push((i, a + i + 1, 1)) } }
    for _ in 0..c.rng.below(a + b) { let (u, v) = (c.rng.below(a), c.rng.below(b)); e.push((u, a + v, 1)) }
    c.rng.shuffle(&mut e);
    let st = stops(&mut c.rng, e.len());
    drive::<i32>(c, n, &e, &st, a + b, a + b + 1, i32::MAX as u128, |x| x as i32, |x| x as u128);
}
/// all networks on 4 vertices with the 12 ordered pairs of capacity 0..=2 (in thorough), 0..=1 in quick;
/// s=0, t=3; both insertion orders; checked through a second instance that grows edge by edge
fn exhaustive(c: &mut Case) {
    let pairs = [(0, 1), (0, 2), (0, 3), (1, 0), (1, 2), (1, 3), (2, 0), (2, 1), (2, 3), (3, 0), (3, 1), (3, 2)];
    let base = if c.tier == Tier::Quick { 2 } else { 3 };
    let mut k = c.idx as usize;
    let mut e: Vec<E> = vec![];
    for (u, v) in pairs {
        let w = k % base;
        k /= base;
        if w > 0 { e.push((u, v, w as u128)) }
    }
    c.rng.shuffle(&mut e);
    let st = if c.rng.chance(1, 2) { vec![e.len()] } else { (0..=e.len()).collect() };
    drive::<u8>(c, 4, &e, &st, 0, 3, 255, |x| x as u8, |x| x as u128);
}
/// very long networks: one chain of every vertex with shortcuts, so that a shortest path may have
/// hundreds or tens of thousands of edges
fn deep(c: &mut Case) {
    let n = match c.idx % 3 { _ if c.exact > 0 => c.exact, _ if c.giant => gen::giant_n(c), 0 => c.rng.range(100, 600), 1 => c.rng.range(600, 5000), _ => gen::huge_n(&mut c.rng) };
    let lab = if c.rng.chance(1, 2) { c.rng.perm(n) } else { (0..n).collect() };
    let lo = c.rng.range(1, 50) as u128;
    let mut e: Vec<E> = (1..n).map(|i| (lab[i - 1], lab[i], lo + c.rng.below(9) as u128)).collect();
    // a few shortcuts and backward arcs
    for _ in 0..c.rng.below(if c.giant { 3 } else { 5 }) {
        let (a, b) = (c.rng.below(n), c.rng.below(n));
        let w = c.rng.below(20) as u128;
        if a != b { e.push((lab[a], lab[b], w)) }
    }
    if c.rng.chance(1, 2) { c.rng.shuffle(&mut e) }
    let st = if c.rng.chance(1, 2) { vec![e.len()] } else { vec![e.len() - 1, e.len()] };
    drive::<i64>(c, n, &e, &st, lab[0], lab[n - 1], i64::MAX as u128, |x| x as i64, |x| x as u128);
    c.max("longest network", n as u64);
}
/// thousands of small networks between one source and one sink, the vertices scattered over all the numbers:
/// the flow is the sum of theirs
fn blocks(c: &mut Case) {
    let n = match c.idx % 4 { _ if c.giant => gen::giant_n(c), 0 => gen::huge_n(&mut c.rng), 1 => c.rng.range(66_000, 140_000), _ => c.rng.range(500, 20_000) };
    let p = c.rng.perm(n);
    let (s, t) = (p[0], p[1]);
    let (mut at, mut e, mut want) = (2, vec![], 0u128);
    let cap = c.rng.range(1, 6);
    while at + 2 <= n {
        let k = c.rng.range(2, 24).min(n - at);
        let b: Vec<E> = if c.rng.chance(1, 2) {
            // chains of choices that have to be taken back
            let h = (k - 2) / 2;
            let mut b = vec![];
            for i in 0..h { b.push((0, 2 + i, 1)); b.push((2 + h + i, 1, 1)); b.push((2 + i, 2 + h + i, 1)); if i + 1 < h { b.push((2 + i, 2 + h + i + 1, 1)) } }
            c.rng.shuffle(&mut b);
            b
        } else {
            gen::digraph(&mut c.rng, k, 3 * k).into_iter().map(|(u, v)| (u, v, 1 + c.rng.below(cap) as u128)).collect()
        };
        want += ek(k, &b, 0, 1);
        e.push((s, p[at], 1000));
        e.push((p[at + 1], t, 1000));
        e.extend(b.iter().map(|x| (p[at + x.0], p[at + x.1], x.2)));
        at += k;
    }
    if c.rng.chance(1, 2) { c.rng.shuffle(&mut e) }
    op!(c, 8, [n, s, t], "{} arcs on {n} vertices in small blocks, {s} to {t}", e.len());
    c.h(e.iter().take(100).fold(0, |a, x| mix(a ^ x.0 as u64 ^ (x.1 as u64) << 32)));
    let mut d = Dinic::<i64>::new(n);
    for &(u, v, w) in &e { d.add_edge(u, v, w as i64) }
    check_eq!(c, d.get_max_flow(s, t) as u128, want, "flow of {} arcs on {} vertices in small blocks", e.len(), n);
    check_eq!(c, d.get_max_flow(s, t), 0, "asking again without change");
    c.max("most vertices in blocks", n as u64);
    c.nontrivial = want > 0;
}
fn blocks_giant(c: &mut Case) {
    c.giant = true;
    blocks(c)
}
/// the same around and above 2^20 elements
fn deep_giant(c: &mut Case) {
    c.giant = true;
    deep(c)
}
/// very many flow calls on one object, arcs added now and then
fn marathon(c: &mut Case) {
    let n = c.rng.range(2, 12);
    let (s, t) = { let s = c.rng.below(n); (s, (s + 1 + c.rng.below(n - 1)) % n) };
    let mut d = Dinic::<u64>::new(n);
    let (mut e, mut prev): (Vec<E>, u128) = (vec![], 0);
    let calls = c.rng.range(140_000, 200_000);
    op!(c, 5, [n, s, t, calls], "{calls} calls on {n} vertices, {s} to {t}");
    for k in 0..calls {
        c.ops += 1;
        let mut want = prev;
        if c.rng.chance(1, 1000) || k == calls - 1 {
            for _ in 0..c.rng.range(1, 4) {
                let (u, v, w) = (c.rng.below(n), c.rng.below(n), c.rng.bits(50));
                d.add_edge(u, v, w as u64);
                e.push((u, v, w));
            }
            want = oracle(n, &e, s, t);
        }
        check_eq!(c, d.get_max_flow(s, t) as u128, want - prev, "additional flow at call {} after {} arcs", k, e.len());
        prev = want;
    }
    c.nontrivial = prev > 0;
}
/// arcs one by one with a question or more after most of them: hundreds of phases on one object
fn incremental(c: &mut Case) {
    let n = c.rng.range(5, 120);
    let (s, t) = { let s = c.rng.below(n); (s, (s + 1 + c.rng.below(n - 1)) % n) };
    let mut d = Dinic::<i64>::new(n);
    let (mut e, mut prev): (Vec<E>, u128) = (vec![], 0);
    let total = c.rng.range(300, 900);
    let cap = c.rng.range(1, 30);
    op!(c, 6, [n, s, t, total], "{total} arcs one by one on {n} vertices, {s} to {t}");
    for _ in 0..total {
        let (u, v, w) = (c.rng.below(n), c.rng.below(n), c.rng.below(cap + 1) as u128);
        op!(c, 2, [u, v, w as u64], "add_edge({u},{v},{w})");
        d.add_edge(u, v, w as i64);
        e.push((u, v, w));
        if c.rng.chance(1, 4) { continue }
        for _ in 0..1 + c.rng.below(3) / 2 {
            let want = oracle(n, &e, s, t);
            op!(c, 3, [], "get_max_flow({s},{t})");
            check_eq!(c, d.get_max_flow(s, t) as u128, want - prev, "additional flow {}->{} after {} arcs", s, t, e.len());
            prev = want;
        }
    }
    c.nontrivial = prev > 0;
}
/// one case for every size
fn sizes(c: &mut Case) {
    c.exact = c.idx as usize + 2;
    deep(c)
}
/// every other vertex as the sink, then every other vertex as the source
fn ends(c: &mut Case) {
    let n = if c.idx == 0 { c.rng.range(1030, 1200) } else { c.rng.range(300, 700) };
    let cap = c.rng.range(1, 9);
    let e: Vec<E> = gen::digraph(&mut c.rng, n, 4 * n).into_iter().map(|(u, v)| (u, v, 1 + c.rng.below(cap) as u128)).collect();
    let x = c.rng.below(n);
    op!(c, 7, [n, x], "from {x} to every vertex of a random network, then to {x}");
    for v in e.iter().take(50) { c.h(mix(v.0 as u64 ^ (v.1 as u64) << 20 ^ (v.2 as u64) << 40)) }
    for y in 0..n {
        if y == x { continue }
        for (s, t) in [(x, y), (y, x)] {
            let mut d = Dinic::<i32>::new(n);
            for &(u, v, w) in &e { d.add_edge(u, v, w as i32) }
            check_eq!(c, d.get_max_flow(s, t) as u128, ek(n, &e, s, t), "flow {}->{} on {} vertices", s, t, n);
        }
    }
    c.nontrivial = true;
}
fn main() {
    run(
        &[
            Workload { name: "exhaustive", quick: 4096, thorough: 531_441, f: exhaustive },
            Workload { name: "small", quick: 600_000, thorough: 8_000_000, f: small },
            Workload { name: "medium", quick: 60_000, thorough: 800_000, f: medium },
            Workload { name: "bipartite", quick: 7_500, thorough: 120_000, f: bip },
            Workload { name: "large", quick: 72, thorough: 1200, f: large },
            Workload { name: "deep", quick: 48, thorough: 600, f: deep },
            Workload { name: "sizes", quick: 2200, thorough: 8800, f: sizes },
            Workload { name: "ends", quick: 6, thorough: 30, f: ends },
            Workload { name: "blocks", quick: 24, thorough: 400, f: blocks },
            Workload { name: "giant-blocks", quick: 1, thorough: 12, f: blocks_giant },
            Workload { name: "giant", quick: 2, thorough: 24, f: deep_giant },
            Workload { name: "marathon", quick: 4, thorough: 60, f: marathon },
            Workload { name: "incremental", quick: 96, thorough: 4000, f: incremental },
        ],
        &["grew after more edges", "zero flow", "flow equals the type's maximum", "i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "isize", "usize", "i128", "u128"],
    )
}
