//! C06 min-heap vs. a multiset: two heaps under push/pop/peek/append/clear/drain histories.
use rust_cp::data_structure::min_heap::MinHeap;
use std::cmp::Ordering;
use std::fmt::Debug;
use vmon::*;

/// compares by key only; id tells copies apart
#[derive(Clone, Debug)]
struct E {
    key: i32,
    id: u32,
}
impl PartialEq for E { fn eq(&self, o: &E) -> bool { self.key == o.key } }
impl Eq for E {}
impl PartialOrd for E { fn partial_cmp(&self, o: &E) -> Option<Ordering> { Some(self.cmp(o)) } }
impl Ord for E { fn cmp(&self, o: &E) -> Ordering { self.key.cmp(&o.key) } }

/// model: unordered list of (element, identity)
fn take<T: Ord + Debug>(c: &mut Case, m: &mut Vec<T>, got: Option<T>, same: fn(&T, &T) -> bool, what: &str) {
    match got {
        None => { check!(c, m.is_empty(), "{}: got None but {} element(s) are held: {:?}", what, m.len(), m.iter().min()); }
        Some(x) => {
            let least = m.iter().min();
            check!(c, least.map(|y| x.cmp(y) == Ordering::Equal).unwrap_or(false), "{}: got {:?}, least held is {:?}", what, x, least);
            let p = m.iter().position(|y| same(&x, y));
            check!(c, p.is_some(), "{}: got {:?}, which is not held (lost, duplicated or invented)", what, x);
            m.swap_remove(p.unwrap());
        }
    }
}
fn drain<T: Ord + Debug + Clone>(c: &mut Case, m: &mut Vec<T>, got: Vec<T>, same: fn(&T, &T) -> bool) {
    check_eq!(c, got.len(), m.len(), "into_sorted_vec length");
    for w in got.windows(2) {
        check!(c, w[0] <= w[1], "into_sorted_vec not ascending: {:?} before {:?}", w[0], w[1]);
    }
    for x in got {
        let p = m.iter().position(|y| same(&x, y));
        check!(c, p.is_some(), "into_sorted_vec returned {:?}, which is not held", x);
        m.swap_remove(p.unwrap());
    }
    check!(c, m.is_empty(), "into_sorted_vec lost {:?}", m);
}
fn history<T: Ord + Debug + Clone>(c: &mut Case, maxops: usize, gen: &mut dyn FnMut(&mut Rng) -> T, same: fn(&T, &T) -> bool) {
    let mk = |c: &mut Case| {
        let k = c.rng.below(40);
        if c.rng.chance(1, 2) { MinHeap::new() } else { MinHeap::with_capacity(k) }
    };
    let mut h: [MinHeap<T>; 2] = [mk(c), mk(c)];
    let mut m: [Vec<T>; 2] = [vec![], vec![]];
    let nops = c.rng.range(1, maxops);
    let bias = c.rng.range(2, 8);
    let (mut pops, mut big) = (0, 0);
    for _ in 0..nops {
        let i = c.rng.below(4) / 3;
        match c.rng.below(20) {
            x if x < bias => {
                let e = gen(&mut c.rng);
                op!(c, 1, [i], "h{i}.push({:?})", e);
                m[i].push(e.clone());
                h[i].push(e);
            }
            17 => {
                if c.rng.chance(1, 6) {
                    op!(c, 2, [i], "h{i}.clear()");
                    h[i].clear();
                    m[i].clear();
                } else {
                    let k = c.rng.below(30);
                    op!(c, 3, [i, k], "push {k} elements to h{i}");
                    for _ in 0..k {
                        let e = gen(&mut c.rng);
                        m[i].push(e.clone());
                        h[i].push(e);
                    }
                }
            }
            18 => {
                op!(c, 4, [i], "h{i}.append(&mut h{})", 1 - i);
                let [a, b] = &mut h;
                let (x, y) = if i == 0 { (a, b) } else { (b, a) };
                x.append(y);
                let mut t = std::mem::take(&mut m[1 - i]);
                if !t.is_empty() && !m[i].is_empty() { c.hit("append both non-empty") }
                m[i].append(&mut t);
            }
            19 => {
                if c.rng.chance(1, 4) {
                    op!(c, 5, [i], "h{i}.into_sorted_vec()");
                    let fresh = mk(c);
                    let old = std::mem::replace(&mut h[i], fresh);
                    let n = m[i].len() as u64;
                    drain(c, &mut m[i], old.into_sorted_vec(), same);
                    if n > 1 { c.hit("drain of 2 or more") }
                }
            }
            15 | 16 => {
                op!(c, 6, [i], "h{i}.peek()");
                let got = h[i].peek();
                let least = m[i].iter().min();
                match (got, least) {
                    (None, None) => { c.events += 1; }
                    (Some(x), Some(y)) => { check!(c, x.cmp(y) == Ordering::Equal && m[i].iter().any(|z| same(x, z)), "peek: got {:?}, least held is {:?}", x, y); }
                    (x, y) => violation(format!("peek: got {x:?}, least held is {y:?}")),
                }
            }
            _ => {
                op!(c, 7, [i], "h{i}.pop()");
                let g = h[i].pop();
                pops += g.is_some() as u64;
                take(c, &mut m[i], g, same, "pop");
            }
        }
        for i in 0..2 {
            check_eq!(c, h[i].len(), m[i].len(), "len of h{}", i);
            check_eq!(c, h[i].is_empty(), m[i].is_empty(), "is_empty of h{}", i);
            big = big.max(m[i].len());
        }
    }
    for i in 0..2 {
        op!(c, 8, [i], "drain h{i}");
        if c.rng.chance(1, 2) {
            while !h[i].is_empty() {
                let g = h[i].pop();
                check!(c, g.is_some(), "pop gave None while is_empty is false");
                take(c, &mut m[i], g, same, "final pop");
            }
            check!(c, m[i].is_empty(), "elements lost: {:?}", m[i]);
            check!(c, h[i].pop().is_none() && h[i].peek().is_none(), "empty heap returned an element");
        } else {
            let old = std::mem::replace(&mut h[i], MinHeap::new());
            drain(c, &mut m[i], old.into_sorted_vec(), same);
        }
    }
    c.max("largest heap", big as u64);
    c.nontrivial = pops > 0 && big > 1;
}
fn keyed(c: &mut Case) {
    let mut id = 0;
    let span = *c.rng.pick(&[1i64, 3, 10, 1000]);
    c.h(span as u64);
    let salt = c.rng.u64();
    c.h(salt);
    history(c, 120, &mut |r| { id += 1; E { key: r.irange(-span, span) as i32, id } }, |a, b| a.id == b.id && a.key == b.key);
}
fn long(c: &mut Case) {
    let mut id = 0;
    let salt = c.rng.u64();
    c.h(salt);
    history(c, 2000, &mut |r| { id += 1; E { key: r.irange(-100, 100) as i32, id } }, |a, b| a.id == b.id && a.key == b.key);
}
fn ints(c: &mut Case) {
    let salt = c.rng.u64();
    c.h(salt);
    history(c, 100, &mut |r| match r.below(5) { 0 => i64::MIN, 1 => i64::MAX, 2 => 0, _ => r.u64() as i64 }, |a, b| a == b);
}
fn tuples(c: &mut Case) {
    let salt = c.rng.u64();
    c.h(salt);
    history(c, 80, &mut |r| (r.below(4), r.below(3) as u8), |a, b| a == b);
}
fn strings(c: &mut Case) {
    let salt = c.rng.u64();
    c.h(salt);
    history(c, 60, &mut |r| (0..r.below(6)).map(|_| (b'a' + r.below(3) as u8) as char).collect::<String>(), |a, b| a == b);
}
fn units(c: &mut Case) {
    let salt = c.rng.u64();
    c.h(salt);
    history(c, 40, &mut |_| (), |_, _| true);
}
/// every permutation of 0..n as push order, interleaved pops at every position
fn perms(c: &mut Case) {
    let mut k = c.idx as usize;
    let n = 1 + k % 6;
    k /= 6;
    let mut left: Vec<usize> = (0..n).collect();
    let mut p = vec![];
    for i in (1..=n).rev() {
        p.push(left.remove(k % i));
        k /= i;
    }
    op!(c, 1, [n], "push order {:?}", p);
    for &x in &p { c.h(x as u64) }
    for mask in 0..1usize << n {
        let mut h = MinHeap::new();
        let mut m: Vec<usize> = vec![];
        for i in 0..n {
            h.push(p[i]);
            m.push(p[i]);
            if mask >> i & 1 == 1 {
                let g = h.pop();
                take(c, &mut m, g, |a, b| a == b, "pop");
            }
        }
        drain(c, &mut m, h.into_sorted_vec(), |a, b| a == b);
    }
    c.nontrivial = n > 1;
}
fn sorted_big(c: &mut Case) {
    let n = if c.exact > 0 { c.exact } else if c.giant { gen::giant_n(c) } else if c.idx % 4 == 0 { gen::huge_n(&mut c.rng) } else { c.rng.range(1000, 50_000) };
    let span = c.rng.bits(60) as u64 + 1;
    op!(c, 1, [n, span], "heap-sort {n} values below {span}");
    let mut v: Vec<u64> = (0..n).map(|_| c.rng.u64() % span).collect();
    let mut h = match c.rng.below(3) { 0 => MinHeap::new(), 1 => MinHeap::with_capacity(c.rng.below(n + 1)), _ => MinHeap::with_capacity(n) };
    let n = if c.exact > 0 { n } else { n & !1 };
    v.truncate(n);
    // one heap much smaller, or both of one size, or of neighbouring sizes
    let cut = match c.rng.below(8) { 0 => c.rng.range(n / 8, n / 3), 1 => n - c.rng.range(n / 8, n / 3), 2 | 3 => n / 2, 4 => n / 2 - 1, 5 => n / 2 + 1, _ => c.rng.below(n + 1) };
    let mut h2 = if c.rng.chance(1, 3) { MinHeap::with_capacity(c.rng.below(n + 1)) } else { MinHeap::new() };
    for (i, &x) in v.iter().enumerate() { if i < cut { h.push(x) } else { h2.push(x) } }
    h.append(&mut h2);
    check_eq!(c, (h.len(), h2.len()), (n, 0), "lengths after append");
    v.sort();
    if c.rng.chance(1, 2) {
        check!(c, h.into_sorted_vec() == v, "into_sorted_vec differs from the sorted input (n={})", n);
    } else {
        for (i, x) in v.iter().enumerate() { check_eq!(c, h.pop(), Some(*x), "pop number {}", i); }
        check_eq!(c, h.pop(), None, "pop of the emptied heap");
    }
    // cleared while large, and used again
    if c.rng.chance(1, 2) {
        let mut h = MinHeap::new();
        for _ in 0..c.rng.range(1, 3) {
            for &x in &v { h.push(x) }
            check_eq!(c, h.len(), n, "length before clear");
            h.clear();
            check_eq!(c, (h.len(), h.is_empty(), h.peek().copied(), h.pop()), (0, true, None, None), "after clear of {}", n);
        }
        h.push(5);
        check_eq!(c, h.into_sorted_vec(), vec![5], "after clear and a push");
        c.hit("large heap cleared");
    }
    c.nontrivial = true;
}
/// the same around and above 2^20 elements
fn sorted_big_giant(c: &mut Case) {
    c.giant = true;
    sorted_big(c)
}
/// very many calls on one object, with an ordered multiset as the model
fn marathon(c: &mut Case) {
    let (ops, span, cap) = (c.rng.range(150_000, 400_000), c.rng.bits(40) as u64 + 1, c.rng.range(1, 5000));
    // one of them holds very many
    let (ops, cap) = if c.idx % 4 == 3 { (1_000_000, c.rng.range(66_000, 140_000)) } else { (ops, cap) };
    op!(c, 9, [ops, span, cap], "{ops} pushes, pops and appends of values below {span}, about {cap} held");
    let mut h = MinHeap::new();
    let mut m: std::collections::BTreeMap<u64, usize> = Default::default();
    let mut len = 0;
    for k in 0..ops {
        c.ops += 1;
        let up = if len < cap { 6 } else { 4 };
        match c.rng.below(12) {
            x if x < up => { let v = c.rng.u64() % span; h.push(v); *m.entry(v).or_default() += 1; len += 1 }
            10 => { check_eq!(c, h.peek().copied(), m.keys().next().copied(), "peek, call {}", k); }
            11 => {
                if c.rng.chance(1, 200) {
                    let mut o = MinHeap::new();
                    for _ in 0..c.rng.below(50) { let v = c.rng.u64() % span; o.push(v); *m.entry(v).or_default() += 1; len += 1 }
                    if c.rng.chance(1, 2) { std::mem::swap(&mut o, &mut h) }
                    h.append(&mut o);
                    check!(c, o.is_empty(), "append left {} elements behind", o.len());
                }
            }
            _ => {
                let want = m.keys().next().copied();
                check_eq!(c, h.pop(), want, "pop, call {}", k);
                if let Some(v) = want { len -= 1; let e = m.get_mut(&v).unwrap(); *e -= 1; if *e == 0 { m.remove(&v); } }
            }
        }
        check_eq!(c, h.len(), len, "len, call {}", k);
    }
    let rest: Vec<u64> = m.iter().flat_map(|(v, k)| std::iter::repeat(*v).take(*k)).collect();
    check_eq!(c, h.into_sorted_vec(), rest, "what is left");
    c.nontrivial = true;
}
/// one case for every size
fn sizes(c: &mut Case) {
    c.exact = c.idx as usize + 2;
    sorted_big(c)
}
fn main() {
    run(
        &[
            Workload { name: "permutations", quick: 6 * 720, thorough: 6 * 720, f: perms },
            Workload { name: "keyed", quick: 150_000, thorough: 3_200_000, f: keyed },
            Workload { name: "long", quick: 900, thorough: 24000, f: long },
            Workload { name: "i64", quick: 60_000, thorough: 800_000, f: ints },
            Workload { name: "tuples", quick: 30_000, thorough: 400_000, f: tuples },
            Workload { name: "strings", quick: 30_000, thorough: 400_000, f: strings },
            Workload { name: "unit", quick: 1_500, thorough: 12_000, f: units },
            Workload { name: "big", quick: 120, thorough: 600, f: sorted_big },
            Workload { name: "sizes", quick: 4200, thorough: 16800, f: sizes },
            Workload { name: "giant", quick: 2, thorough: 24, f: sorted_big_giant },
            Workload { name: "marathon", quick: 4, thorough: 60, f: marathon },
        ],
        &["append both non-empty", "drain of 2 or more", "large heap cleared"],
    )
}
