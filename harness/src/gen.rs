//! Workload generators: graphs and trees of many shapes.
use crate::Rng;

/// directed edge list on n vertices
pub fn digraph(r: &mut Rng, n: usize, mmax: usize) -> Vec<(usize, usize)> {
    let mut e = vec![];
    if n == 0 {
        return e;
    }
    match r.below(8) {
        0 => {
            // chain / cycle with noise
            for i in 1..n {
                e.push((i - 1, i));
            }
            if r.chance(1, 2) && n > 1 {
                e.push((n - 1, 0));
            }
            for _ in 0..r.below(n.min(mmax) + 1) {
                e.push((r.below(n), r.below(n)));
            }
        }
        1 => {
            // DAG
            for _ in 0..r.below(mmax + 1) {
                let (a, b) = (r.below(n), r.below(n));
                if a < b {
                    e.push((a, b))
                }
            }
        }
        2 => {
            // clusters of cycles joined by a few edges
            let k = 1 + r.below(5);
            let cl: Vec<usize> = (0..n).map(|_| r.below(k)).collect();
            for c in 0..k {
                let m: Vec<usize> = (0..n).filter(|&i| cl[i] == c).collect();
                for w in 0..m.len() {
                    if r.chance(9, 10) {
                        e.push((m[w], m[(w + 1) % m.len()]));
                    }
                }
            }
            for _ in 0..r.below(2 * k + 1) {
                e.push((r.below(n), r.below(n)));
            }
        }
        3 => {
            // dense
            let p = 1 + r.below(9);
            let lim = n.min(40);
            for i in 0..lim {
                for j in 0..lim {
                    if r.chance(p, 10) {
                        e.push((i, j))
                    }
                }
            }
        }
        4 => {
            // star, in and out
            let c = r.below(n);
            for i in 0..n {
                if r.chance(1, 2) {
                    e.push((c, i))
                } else {
                    e.push((i, c))
                }
            }
        }
        _ => {
            for _ in 0..r.below(mmax + 1) {
                e.push((r.below(n), r.below(n)));
            }
        }
    }
    // duplicates and self loops
    if !e.is_empty() && r.chance(1, 3) {
        for _ in 0..r.below(4) {
            let x = *r.pick(&e);
            e.push(x);
        }
        let v = r.below(n);
        e.push((v, v));
    }
    // relabel and shuffle
    if r.chance(2, 3) {
        let p = r.perm(n);
        for x in e.iter_mut() {
            *x = (p[x.0], p[x.1]);
        }
    }
    if r.chance(2, 3) {
        r.shuffle(&mut e);
    }
    e
}

pub fn adj(n: usize, e: &[(usize, usize)]) -> Vec<Vec<usize>> {
    let mut g = vec![vec![]; n];
    for &(a, b) in e {
        g[a].push(b);
    }
    g
}

pub const SHAPES: &[&str] = &["path", "star", "caterpillar", "binary", "random", "broom", "spider", "deep-random", "double-star", "heavy-light-adversarial"];
/// parent array (parent[i] < i, i >= 1) of a tree with n >= 1 vertices
pub fn tree_parents(r: &mut Rng, n: usize, shape: usize) -> Vec<usize> {
    let mut p = vec![0; n];
    let k = 1 + r.below(n);
    for i in 1..n {
        p[i] = match shape {
            0 => i - 1,
            1 => 0,
            2 => if i % 2 == 1 { i.saturating_sub(2) / 2 * 2 } else { i - 2 },
            3 => (i - 1) / 2,
            4 => r.below(i),
            5 => if i < k { i - 1 } else { k - 1 },
            6 => if i <= 4 { 0 } else { i - 4 },
            7 => i - 1 - r.below(3.min(i)),
            8 => if i == 1 { 0 } else { i % 2 },
            _ => if i % 3 == 0 { i / 3 } else { i - 1 },
        };
    }
    p
}
/// a stem with thousands of small trees hanging where the depth passes a power of two; the second result lists their vertices
pub fn deep_forks(r: &mut Rng) -> (Tree, Vec<usize>) {
    let base = *r.pick(&[1usize << 15, 1 << 16, 1 << 16, 1 << 17]);
    let stem = base + r.range(50, 3000);
    let extra = r.range(200, 4000);
    let n = stem + extra;
    let mut par: Vec<usize> = (0..n).map(|i| i.saturating_sub(1)).collect();
    for i in stem..n {
        par[i] = match r.below(4) {
            0 => base - 30 + r.below(60),
            1 => stem - 1 - r.below(stem.min(200)),
            _ if i == stem => base,
            2 => i - 1,
            _ => r.range(stem, i - 1),
        };
    }
    let lab = r.perm(n);
    let e: Vec<_> = (1..n).map(|i| (lab[i], lab[par[i]])).collect();
    let hot = lab[stem..].to_vec();
    (tree_from_edges(n, &e, lab[0], "deep forks"), hot)
}
pub struct Tree {
    pub n: usize,
    pub root: usize,
    pub g: Vec<Vec<usize>>, // undirected adjacency
    pub par: Vec<usize>,    // w.r.t. root; par[root] = root
    pub dep: Vec<usize>,
    pub order: Vec<usize>, // root first
    pub shape: &'static str,
}
pub fn tree(r: &mut Rng, n: usize) -> Tree {
    let shape = r.below(SHAPES.len());
    let p = tree_parents(r, n, shape);
    let lab = if r.chance(3, 4) { r.perm(n) } else { (0..n).collect() };
    let mut e: Vec<(usize, usize)> = (1..n).map(|i| (lab[i], lab[p[i]])).collect();
    if r.chance(2, 3) {
        r.shuffle(&mut e);
    }
    let root = match r.below(4) {
        0 => 0,
        1 => lab[0],
        2 => n - 1,
        _ => r.below(n),
    };
    tree_from_edges(n, &e, root, SHAPES[shape])
}
pub fn tree_from_edges(n: usize, e: &[(usize, usize)], root: usize, shape: &'static str) -> Tree {
    let mut g = vec![vec![]; n];
    for &(a, b) in e {
        g[a].push(b);
        g[b].push(a);
    }
    let mut par = vec![usize::MAX; n];
    let mut dep = vec![0; n];
    let mut order = vec![root];
    par[root] = root;
    let mut i = 0;
    while i < order.len() {
        let u = order[i];
        i += 1;
        for &v in &g[u] {
            if par[v] == usize::MAX {
                par[v] = u;
                dep[v] = dep[u] + 1;
                order.push(v);
            }
        }
    }
    assert_eq!(order.len(), n);
    Tree { n, root, g, par, dep, order, shape }
}
impl Tree {
    pub fn path(&self, u: usize, v: usize) -> Vec<usize> {
        let (mut a, mut b) = (u, v);
        let (mut l, mut rr) = (vec![], vec![]);
        while a != b {
            if self.dep[a] >= self.dep[b] {
                l.push(a);
                a = self.par[a];
            } else {
                rr.push(b);
                b = self.par[b];
            }
        }
        l.push(a);
        rr.reverse();
        l.extend(rr);
        l
    }
    pub fn lca(&self, u: usize, v: usize) -> usize {
        let (mut a, mut b) = (u, v);
        while a != b {
            if self.dep[a] >= self.dep[b] {
                a = self.par[a]
            } else {
                b = self.par[b]
            }
        }
        a
    }
    pub fn subtree(&self, u: usize) -> Vec<usize> {
        let mut inn = vec![false; self.n];
        inn[u] = true;
        for &v in &self.order {
            if v != self.root && inn[self.par[v]] {
                inn[v] = true
            }
        }
        (0..self.n).filter(|&v| inn[v]).collect()
    }
}
/// the k-th labelled tree on n vertices by Prüfer code
pub fn prufer(n: usize, mut k: u64) -> Vec<(usize, usize)> {
    if n == 1 {
        return vec![];
    }
    let code: Vec<usize> = (0..n - 2)
        .map(|_| {
            let d = (k % n as u64) as usize;
            k /= n as u64;
            d
        })
        .collect();
    let mut deg = vec![1; n];
    for &c in &code {
        deg[c] += 1;
    }
    let mut e = vec![];
    for &c in &code {
        let l = (0..n).find(|&i| deg[i] == 1).unwrap();
        e.push((l, c));
        deg[l] = 0;
        deg[c] -= 1;
    }
    let r: Vec<usize> = (0..n).filter(|&i| deg[i] == 1).collect();
    e.push((r[0], r[1]));
    e
}

/// a size around or beyond the limits of 15-, 16- and 17-bit counters
pub fn huge_n(r: &mut Rng) -> usize {
    match r.below(6) {
        0 => (1 << 15) + r.below(5) - 2,
        1 => (1 << 16) + r.below(5) - 2,
        2 => (1 << 17) + r.below(5) - 2,
        _ => r.range(66_000, 140_000),
    }
}

/// around and above 2^20: tables of a fixed size and narrow indices end there
pub fn giant_n(c: &mut crate::Case) -> usize {
    let r = &mut c.rng;
    match c.idx % 6 {
        0 => (1 << 20) + 1 + r.below(3),
        1 => r.range((1 << 20) + 4, 1_300_000),
        2 => (1 << 20) - r.below(3),
        3 => r.range(1_000_000, 1 << 20),
        4 => r.range(1_300_000, 1_700_000),
        _ => (1 << 20) + r.below(1 << 17),
    }
}

/// the positions 0..=n where a cut-off counter, a table end or a wrong level shows: the ends, powers of two, eighths
pub fn spots(n: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=24).chain(n.saturating_sub(24)..=n).collect();
    for j in 0..40 {
        for d in 0..5 { v.push((1usize << j).wrapping_add(d).wrapping_sub(2)) }
        for d in 0..3 { v.push(n.wrapping_sub(1usize << j).wrapping_add(d).wrapping_sub(1)) }
    }
    for k in 1..8 { for d in 0..3 { v.push((k * n / 8 + d).wrapping_sub(1)) } }
    v.retain(|x| *x <= n);
    v.sort();
    v.dedup();
    v
}

/// a path from the root with a leaf at every remarkable depth; labels and the order of the lists are shuffled
pub struct Spine {
    pub g: Vec<Vec<usize>>,
    pub root: usize,
    /// the vertex of the path at a depth
    pub at: Vec<usize>,
    /// (depth it hangs at, leaf)
    pub leaf: Vec<(usize, usize)>,
}
pub fn spine(r: &mut Rng, h: usize) -> Spine {
    let hang: Vec<usize> = spots(h - 1);
    let n = h + hang.len();
    let mut lab: Vec<usize> = (0..n).collect();
    r.shuffle(&mut lab);
    let mut g = vec![vec![]; n];
    let mut edge = |a: usize, b: usize| { g[a].push(b); g[b].push(a) };
    for i in 1..h { edge(lab[i - 1], lab[i]) }
    for (k, d) in hang.iter().enumerate() { edge(lab[*d], lab[h + k]) }
    for l in &mut g { r.shuffle(l) }
    Spine { root: lab[0], at: lab[..h].to_vec(), leaf: hang.iter().enumerate().map(|(k, d)| (*d, lab[h + k])).collect(), g }
}
