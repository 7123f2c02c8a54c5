//! C01 union-find vs. explicit set lists (small-to-large relabelling).
use rust_cp::data_structure::union_find::UnionFind;
use vmon::*;

struct Model {
    lab: Vec<usize>,
    mem: Vec<Vec<usize>>,
}
impl Model {
    fn new(n: usize) -> Self {
        Model { lab: (0..n).collect(), mem: (0..n).map(|i| vec![i]).collect() }
    }
    fn join(&mut self, x: usize, y: usize) -> bool {
        let (mut a, mut b) = (self.lab[x], self.lab[y]);
        if a == b {
            return false;
        }
        if self.mem[a].len() < self.mem[b].len() {
            std::mem::swap(&mut a, &mut b)
        }
        let v = std::mem::take(&mut self.mem[b]);
        for &i in &v {
            self.lab[i] = a
        }
        self.mem[a].extend(v);
        true
    }
}
fn full(c: &mut Case, u: &mut UnionFind, m: &Model) {
    let n = m.lab.len();
    let g = u.groups();
    let mut seen = vec![false; n];
    for s in &g {
        check!(c, !s.is_empty() && s.iter().all(|&i| i < n), "groups: empty or out-of-range group {:?} (n={})", s, n);
        for &i in s {
            check!(c, !seen[i], "groups: element {} listed twice in {:?}", i, g);
            seen[i] = true;
            check!(c, m.lab[i] == m.lab[s[0]], "groups: {} and {} listed together but no joins connect them", i, s[0]);
        }
        check_eq!(c, s.len(), m.mem[m.lab[s[0]]].len(), "groups: size of the group of {}", s[0]);
    }
    check!(c, seen.iter().all(|&x| x), "groups: an element is missing from {:?}", g);
    let mut rep = vec![usize::MAX; n];
    for i in 0..n {
        let f = u.find(i);
        check!(c, f < n && m.lab[f] == m.lab[i], "find({}) = {}: not a member of its set", i, f);
        let l = m.lab[i];
        if rep[l] == usize::MAX {
            rep[l] = f;
            check_eq!(c, u.find(f), f, "find of the representative of {}", i);
        }
        check_eq!(c, f, rep[l], "find({}): representative differs inside one set", i);
        check_eq!(c, u.size(i), m.mem[l].len(), "size({})", i);
    }
}
fn history(c: &mut Case) {
    let n = if c.giant { c.rng.range(2, 3000) } else { c.size(3000) };
    let mut u = UnionFind::new(n);
    let mut m = Model::new(n);
    op!(c, 1, [n], "UnionFind::new({n})");
    full(c, &mut u, &m);
    if n == 0 {
        c.hit("n=0");
        return;
    }
    let style = c.rng.below(5);
    let ops = if c.giant { c.rng.range(140_000, 300_000) } else { c.rng.range(1, 4 * n.min(150) + 10) };
    let mut merged = 0;
    for k in 0..ops {
        let (x, y) = match style {
            0 => (c.rng.below(n), c.rng.below(n)),
            1 => (k % n, (k + 1) % n),
            2 => (0, c.rng.below(n)),
            3 => {
                let w = c.rng.below(n.min(6));
                (w, c.rng.below(n))
            }
            _ => {
                let a = c.rng.below(n);
                let s = &m.mem[m.lab[a]];
                (s[c.rng.below(s.len())], c.rng.below(n))
            }
        };
        match c.rng.below(10) {
            0..=5 => {
                op!(c, 2, [x, y], "join({x},{y})");
                let want = m.join(x, y);
                merged += want as usize;
                let same_args = x == y;
                if same_args {
                    c.hit("self-join");
                }
                check_eq!(c, u.join(x, y), want, "join({},{})", x, y);
            }
            6..=7 => {
                op!(c, 3, [x, y], "is_same({x},{y})");
                check_eq!(c, u.is_same(x, y), m.lab[x] == m.lab[y], "is_same({},{})", x, y);
            }
            8 => {
                op!(c, 4, [x], "size({x})");
                check_eq!(c, u.size(x), m.mem[m.lab[x]].len(), "size({})", x);
            }
            _ => {
                op!(c, 5, [x], "find({x})");
                let f = u.find(x);
                check!(c, f < n && m.lab[f] == m.lab[x], "find({}) = {}", x, f);
            }
        }
        if c.giant && !c.rng.chance(1, 2000) {
            continue;
        }
        if n <= 40 || c.rng.chance(1, 40) {
            if c.rng.chance(1, 3) {
                full(c, &mut u, &m);
            }
        }
    }
    full(c, &mut u, &m);
    c.nontrivial = merged >= 2;
    if merged >= 2 {
        c.hit("merged>=2");
    }
}
/// every sequence of 4 joins on 4 elements (16^4), all answers after the last
fn exhaustive(c: &mut Case) {
    let mut k = c.idx;
    let n = 4;
    let mut u = UnionFind::new(n);
    let mut m = Model::new(n);
    for _ in 0..4 {
        let (x, y) = ((k % 4) as usize, (k / 4 % 4) as usize);
        k /= 16;
        op!(c, 2, [x, y], "join({x},{y})");
        let w = m.join(x, y);
        check_eq!(c, u.join(x, y), w, "join({},{})", x, y);
    }
    for x in 0..n {
        for y in 0..n {
            check_eq!(c, u.is_same(x, y), m.lab[x] == m.lab[y], "is_same({},{})", x, y);
        }
    }
    full(c, &mut u, &m);
    c.nontrivial = true;
}
/// long adversarial orders
fn large(c: &mut Case) {
    let n = if c.exact > 0 { c.exact } else if c.giant { gen::giant_n(c) } else if c.tier == Tier::Quick { c.rng.range(20_000, 100_000) } else { c.rng.range(100_000, 600_000) };
    let style = if c.giant || c.exact > 0 { c.rng.below(6) } else { (c.idx % 6) as usize };
    op!(c, 9, [n, style], "n={n} style={style}");
    let mut u = UnionFind::new(n);
    let mut m = Model::new(n);
    let mut pairs: Vec<(usize, usize)> = match style {
        0 => (1..n).map(|i| (i - 1, i)).collect(),
        1 => (1..n).map(|i| (i, i - 1)).rev().collect(),
        2 => (1..n).map(|i| (i, 0)).collect(),
        3 => {
            let mut v = vec![];
            let mut s = 1;
            while s < n {
                let mut i = 0;
                while i + s < n {
                    v.push((i + s - 1, i + s));
                    i += 2 * s;
                }
                s *= 2;
            }
            v
        }
        _ => (0..n).map(|_| (c.rng.below(n), c.rng.below(n))).collect(),
    };
    if style == 5 {
        pairs.truncate(n / 2);
    }
    for (k, &(x, y)) in pairs.iter().enumerate() {
        c.ops += 1;
        let w = m.join(x, y);
        check_eq!(c, u.join(x, y), w, "join #{} ({},{})", k, x, y);
        if k % 17 == 0 {
            let a = c.rng.below(n);
            check_eq!(c, u.size(a), m.mem[m.lab[a]].len(), "size({})", a);
            let b = c.rng.below(n);
            check_eq!(c, u.is_same(a, b), m.lab[a] == m.lab[b], "is_same({},{})", a, b);
        }
    }
    full(c, &mut u, &m);
    c.nontrivial = true;
    c.max("largest n", n as u64);
}
/// the same around and above 2^20 elements
fn large_giant(c: &mut Case) {
    c.giant = true;
    large(c)
}
/// very many calls on one object
fn marathon(c: &mut Case) {
    c.giant = true;
    history(c)
}
/// one case for every size
fn sizes(c: &mut Case) {
    c.exact = c.idx as usize + 1;
    large(c)
}
fn main() {
    run(
        &[
            Workload { name: "exhaustive4x4", quick: 65536, thorough: 65536, f: exhaustive },
            Workload { name: "history", quick: 200_000, thorough: 6_000_000, f: history },
            Workload { name: "large", quick: 36, thorough: 180, f: large },
            Workload { name: "sizes", quick: 4200, thorough: 16800, f: sizes },
            Workload { name: "giant", quick: 2, thorough: 24, f: large_giant },
            Workload { name: "marathon", quick: 6, thorough: 60, f: marathon },
        ],
        &["merged>=2", "self-join", "n=0"],
    )
}
