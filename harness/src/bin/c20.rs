//! C20 Aho-Corasick vs. naive search: full listing, counts, longest-match search; ids from a slice
//! or chosen through new/insert/build; several alphabets.
use rust_cp::string::aho_corasick::AhoCorasick;
use vmon::*;

fn run_one<const O: u8, const N: usize>(c: &mut Case, pats: &[Vec<u8>], texts: &[Vec<u8>]) {
    let np = pats.len();
    let by_hand = c.rng.chance(1, 2);
    // ids: position in the slice, or a permutation handed to insert
    let ids: Vec<usize> = if by_hand { c.rng.perm(np) } else { (0..np).collect() };
    op!(c, 1, [np, by_hand], "offset {O} size {N} patterns {:?} ids {:?}", pats, ids);
    for p in pats { c.h_slice(p) }
    let ac: AhoCorasick<O, N> = if by_hand {
        let mut a = AhoCorasick::new(np);
        for (p, &i) in pats.iter().zip(&ids) { a.insert(p, i) }
        a.build();
        a
    } else {
        AhoCorasick::from(&pats.iter().map(|p| p.as_slice()).collect::<Vec<_>>())
    };
    for t in texts {
        op!(c, 2, [t.len()], "text {:?}", t);
        c.h_slice(t);
        let mut want_all: Vec<Vec<usize>> = vec![vec![]; t.len()];
        let mut want_cnt = vec![0; np];
        let mut longest = vec![0; t.len()];
        for (p, &id) in pats.iter().zip(&ids) {
            for i in p.len()..=t.len() {
                if t[i - p.len()..i] == p[..] {
                    want_all[i - 1].push(id);
                    want_cnt[id] += 1;
                    longest[i - 1] = longest[i - 1].max(p.len());
                }
            }
        }
        let mut len_of = vec![0; np];
        for (p, &id) in pats.iter().zip(&ids) { len_of[id] = p.len() }
        let mut all = ac.find_all(t);
        check_eq!(c, all.len(), t.len(), "positions listed by find_all");
        for i in 0..t.len() {
            all[i].sort();
            want_all[i].sort();
            check_eq!(c, all[i], want_all[i], "patterns ending at {} of {:?}", i, t);
            if want_all[i].len() > 1 { c.hit("several patterns end together") }
            if longest[i] > 0 && i + 1 < t.len() { c.nontrivial = true }
        }
        check_eq!(c, ac.find_cnt(t), want_cnt, "occurrence counts in {:?}", t);
        let one = ac.find(t);
        check_eq!(c, one.len(), t.len(), "positions answered by find");
        for i in 0..t.len() {
            match one[i] {
                None => { check!(c, longest[i] == 0, "find says nothing ends at {} of {:?}, but a pattern of length {} does", i, t, longest[i]); }
                Some(id) => { check!(c, want_all[i].contains(&id) && len_of[id] == longest[i], "find says pattern {} at {} of {:?}; the longest ending there has length {}", id, i, t, longest[i]); }
            }
        }
        if t.is_empty() { c.hit("empty text") }
    }
    if np == 0 { c.hit("no patterns") }
}
fn word(r: &mut Rng, k: usize, max: usize, off: u8, n: usize) -> Vec<u8> {
    let l = r.range(1, max);
    // spread k letters over the alphabet, its two ends included
    (0..l).map(|_| off.wrapping_add(spread(r.below(k), k, n))).collect()
}
fn spread(i: usize, k: usize, n: usize) -> u8 { if k == 1 { (n - 1) as u8 } else { (i * (n - 1) / (k - 1)) as u8 } }
fn gen_case(r: &mut Rng, off: u8, n: usize, maxp: usize, maxl: usize, maxt: usize) -> (Vec<Vec<u8>>, Vec<Vec<u8>>) {
    let k = r.range(1, 3.min(n)).max(if r.chance(1, 6) { n.min(26) } else { 1 });
    let np = r.below(maxp + 1);
    let mut pats: Vec<Vec<u8>> = vec![];
    for _ in 0..np {
        let w = match r.below(6) {
            // nested: substring / extension / suffix / copy of an earlier pattern
            0 if !pats.is_empty() => { let p = r.pick(&pats).clone(); let a = r.below(p.len()); let b = r.range(a + 1, p.len()); p[a..b].to_vec() }
            1 if !pats.is_empty() => { let mut p = r.pick(&pats).clone(); let mut w = word(r, k, 3, off, n); if r.chance(1, 2) { w.extend(p); w } else { p.extend(w); p } }
            2 if !pats.is_empty() => { let p = r.pick(&pats).clone(); let a = r.below(p.len()); p[a..].to_vec() }
            3 if !pats.is_empty() && r.chance(1, 2) => r.pick(&pats).clone(),
            _ => word(r, k, maxl, off, n),
        };
        pats.push(w);
    }
    let nt = r.range(1, 3);
    let texts = (0..nt).map(|_| {
        let l = r.below(maxt + 1);
        let mut t = vec![];
        while t.len() < l {
            if !pats.is_empty() && r.chance(1, 2) { let p = r.pick(&pats); let e = r.range(1, p.len()); t.extend_from_slice(&p[..e]) } else { let w = word(r, k, 3, off, n); t.extend(w) }
        }
        t.truncate(l);
        t
    }).collect();
    (pats, texts)
}
macro_rules! alpha { ($f:ident, $o:expr, $n:expr, $p:expr, $l:expr, $t:expr) => {
    fn $f(c: &mut Case) {
        let (p, t) = gen_case(&mut c.rng, $o, $n, $p, $l, $t);
        run_one::<{ $o }, { $n }>(c, &p, &t);
    }
}; }
alpha!(lower, b'a', 26, 7, 6, 30);
alpha!(upper, b'A', 26, 5, 5, 20);
alpha!(digits, b'0', 10, 6, 5, 25);
alpha!(binary, b'0', 2, 8, 7, 40);
alpha!(unary, b'x', 1, 4, 8, 20);
alpha!(bytes, 0, 256, 6, 5, 25);
alpha!(dna, b'A', 20, 8, 8, 60);
alpha!(high, 200, 56, 5, 5, 20);
alpha!(many, b'a', 26, 60, 10, 300);
fn default_params(c: &mut Case) {
    // through the defaults of the type, as the documentation's user would write it
    let (p, t) = gen_case(&mut c.rng, b'a', 26, 5, 5, 20);
    op!(c, 3, [p.len()], "default parameters {:?} {:?}", p, t);
    for x in &p { c.h_slice(x) }
    let ps: Vec<&[u8]> = p.iter().map(|x| x.as_slice()).collect();
    let ac = <AhoCorasick>::from(&ps);
    for t in &t {
        let want: Vec<usize> = p.iter().map(|p| t.windows(p.len()).filter(|w| *w == &p[..]).count()).collect();
        check_eq!(c, ac.find_cnt(t), want, "counts in {:?}", t);
        let again = ac.find_cnt(t);
        check_eq!(c, again, want, "counts in {:?}, asked twice", t);
    }
    c.nontrivial = !p.is_empty();
}
/// every set of up to 2 patterns of length <= 3 over {a,b} (ordered, repeats allowed), against
/// every text of length <= 6
fn exhaustive(c: &mut Case) {
    let words: Vec<Vec<u8>> = (1..=3u32).flat_map(|l| (0..1u32 << l).map(move |w| (0..l).map(|i| b'a' + (w >> i & 1) as u8).collect())).collect();
    let n = words.len(); // 14
    let i = c.idx as usize;
    let pats = if i < n { vec![words[i].clone()] } else if i < n + n * n { vec![words[(i - n) / n].clone(), words[(i - n) % n].clone()] } else { let k = i - n - n * n; vec![words[k / n / n].clone(), words[k / n % n].clone(), words[k % n].clone()] };
    let texts: Vec<Vec<u8>> = (0..=6u32).flat_map(|l| (0..1u32 << l).map(move |w| (0..l).map(|i| b'a' + (w >> i & 1) as u8).collect())).collect();
    run_one::<b'a', 2>(c, &pats, &texts);
}
/// long text and deep nesting: a^k patterns, every prefix and suffix of one word
fn nested(c: &mut Case) {
    let r = &mut c.rng;
    let base: Vec<u8> = match r.below(3) { 0 => vec![b'a'; r.range(2, 30)], 1 => (0..r.range(2, 30)).map(|i| b'a' + (i % 2) as u8).collect(), _ => (0..r.range(2, 30)).map(|_| b'a' + r.below(2) as u8).collect() };
    let mut pats: Vec<Vec<u8>> = vec![];
    for i in 0..base.len() { match r.below(4) { 0 => pats.push(base[..=i].to_vec()), 1 => pats.push(base[i..].to_vec()), 2 => { let j = r.range(i, base.len() - 1); pats.push(base[i..=j].to_vec()) } _ => {} } }
    if r.chance(1, 2) { r.shuffle(&mut pats) }
    let mut t = base.clone();
    for _ in 0..r.below(6) { if r.chance(1, 2) { t.extend(base.clone()) } else { let k = r.below(base.len()); t.truncate(t.len() - 1); t.extend_from_slice(&base[k..]) } }
    run_one::<b'a', 26>(c, &pats, &[t, base]);
}
/// tens of thousands of patterns, automaton states and text positions, found again by hashing
fn huge(c: &mut Case) {
    let style = if c.giant { 1 } else { (c.idx % 3) as usize };
    let giant = if c.giant { gen::giant_n(c) } else { 0 };
    let r = &mut c.rng;
    let k = if style == 0 { r.range(12, 26) } else { r.range(2, 26) };
    let tn = if giant > 0 { giant * 5 / 4 } else { gen::huge_n(r) };
    let text: Vec<u8> = (0..tn).map(|_| b'a' + r.below(k) as u8).collect();
    let mut pats: Vec<Vec<u8>> = vec![];
    match style {
        // many short patterns
        0 => for _ in 0..gen::huge_n(r) { let l = r.range(3, 6); if r.chance(1, 2) { let i = r.below(tn - 6); pats.push(text[i..i + l].to_vec()) } else { pats.push((0..l).map(|_| b'a' + r.below(k) as u8).collect()) } },
        // few very long ones and their ends
        _ => {
            for _ in 0..if giant > 0 { 1 } else { r.range(1, 3) } {
                let i = if giant > 0 { r.below(tn - giant + 1) } else { r.below(tn / 4) };
                let j = if giant > 0 { i + giant } else { r.range(3 * tn / 4, tn) };
                pats.push(text[i..j].to_vec());
                for l in [1, 2, 70, 300, 40_000] { if r.chance(1, 2) && l < j - i { pats.push(text[j - l..j].to_vec()) } }
            }
        }
    }
    op!(c, 7, [style, tn, pats.len()], "{} patterns of {} letters in total over a text of {tn}", pats.len(), pats.iter().map(|p| p.len()).sum::<usize>());
    let ps: Vec<&[u8]> = pats.iter().map(|x| x.as_slice()).collect();
    let mut by: std::collections::HashMap<&[u8], Vec<usize>> = Default::default();
    for (i, p) in ps.iter().enumerate() { by.entry(p).or_default().push(i) }
    let mut lens: Vec<usize> = ps.iter().map(|p| p.len()).collect();
    lens.sort();
    lens.dedup();
    let ac = AhoCorasick::<b'a', 26>::from(&ps);
    let (all, cnt, best) = (ac.find_all(&text), ac.find_cnt(&text), ac.find(&text));
    check_eq!(c, (all.len(), best.len(), cnt.len()), (tn, tn, ps.len()), "lengths of the answers");
    let mut count = vec![0usize; ps.len()];
    for e in 0..tn {
        let mut want: Vec<usize> = vec![];
        for &l in &lens {
            if l > e + 1 { break }
            // long windows: compare with the few long patterns directly
            let w = &text[e + 1 - l..=e];
            if l > 64 { for (i, p) in ps.iter().enumerate() { if p.len() == l && p[l - 8..] == w[l - 8..] && p == &w { want.push(i) } } }
            else if let Some(v) = by.get(w) { want.extend(v) }
        }
        let top = want.iter().map(|&i| ps[i].len()).max();
        check_eq!(c, best[e].map(|i| ps[i].len()), top, "longest pattern ending at {}", e);
        let mut got = all[e].clone();
        got.sort();
        want.sort();
        check!(c, got == want, "patterns ending at {}: {:?}, expected {:?}", e, got, want);
        for i in want { count[i] += 1 }
    }
    check!(c, cnt == count, "counts differ at pattern {:?}", (0..ps.len()).find(|&i| cnt[i] != count[i]));
    c.max("most letters in all patterns", pats.iter().map(|p| p.len() as u64).sum());
    c.nontrivial = true;
}
/// one pattern given very often, among others
fn copies(c: &mut Case) {
    let r = &mut c.rng;
    let around = *r.pick(&[1usize << 8, 1 << 8, 1 << 9, 1 << 12, 1 << 15, 1 << 16, 1 << 16]);
    let k = match r.below(3) { 0 => around, 1 => around - 1, _ => around + 1 };
    let w: Vec<u8> = (0..r.range(1, 5)).map(|_| b'a' + r.below(2) as u8).collect();
    let mut pats = vec![w.clone(); k];
    for _ in 0..r.below(5) {
        let mut v: Vec<u8> = (0..r.range(1, 4)).map(|_| b'a' + r.below(2) as u8).collect();
        match r.below(3) { 0 => v.extend(&w), 1 => v = w[r.below(w.len())..].to_vec(), _ => {} }
        let at = r.below(pats.len() + 1);
        pats.insert(at, v);
    }
    let mut text: Vec<u8> = (0..r.below(12)).map(|_| b'a' + r.below(2) as u8).collect();
    for _ in 0..r.range(1, 3) { text.extend(&w); if r.chance(1, 2) { text.push(b'a' + r.below(3) as u8) } }
    op!(c, 8, [k, text.len()], "{k} copies of {:?} and {} others, text {:?}", w, pats.len() - k, text);
    for x in pats.iter().filter(|x| **x != w) { c.h_slice(x) }
    c.h_slice(&w);
    c.h_slice(&text);
    let ps: Vec<&[u8]> = pats.iter().map(|x| x.as_slice()).collect();
    let ac = AhoCorasick::<b'a', 26>::from(&ps);
    let (all, cnt, best) = (ac.find_all(&text), ac.find_cnt(&text), ac.find(&text));
    check_eq!(c, (all.len(), best.len(), cnt.len()), (text.len(), text.len(), ps.len()), "lengths of the answers");
    let mut count = vec![0usize; ps.len()];
    for e in 0..text.len() {
        let want: Vec<usize> = (0..ps.len()).filter(|&i| text[..=e].ends_with(ps[i])).collect();
        let mut got = all[e].clone();
        got.sort();
        check!(c, got == want, "{} patterns reported as ending at {}, expected {}", got.len(), e, want.len());
        check_eq!(c, best[e].map(|i| ps[i].len()), want.iter().map(|&i| ps[i].len()).max(), "longest pattern ending at {}", e);
        for i in want { count[i] += 1 }
    }
    check!(c, cnt == count, "counts differ at pattern {:?}", (0..ps.len()).find(|&i| cnt[i] != count[i]));
    c.max("most copies of one pattern", k as u64);
    c.nontrivial = true;
}
/// a pattern of more than 2^20 letters
fn huge_giant(c: &mut Case) {
    c.giant = true;
    huge(c)
}
/// one case for every size
fn sizes(c: &mut Case) {
    c.exact = c.idx as usize + 1;
    exactly(c)
}
/// so many patterns over a text of so many letters
fn exactly(c: &mut Case) {
    let (np, k) = (c.exact, c.rng.range(2, 6));
    let mut pats: Vec<Vec<u8>> = vec![];
    let long = c.rng.range(1, 8);
    for _ in 0..np {
        let l = c.rng.range(1, long);
        let mut w: Vec<u8> = (0..l).map(|_| b'a' + c.rng.below(k) as u8).collect();
        if !pats.is_empty() && c.rng.chance(1, 3) { let p = c.rng.pick(&pats).clone(); if p.len() < 12 { if c.rng.chance(1, 2) { w.extend(p) } else { w = [p, w].concat() } } }
        pats.push(w);
    }
    let texts: Vec<Vec<u8>> = [c.rng.range(1, 40), np].iter().map(|&l| {
        let mut t: Vec<u8> = vec![];
        while t.len() < l { if c.rng.chance(1, 2) { t.extend(c.rng.pick(&pats)) } else { t.push(b'a' + c.rng.below(k) as u8) } }
        t.truncate(l);
        t
    }).collect();
    run_one::<b'a', 26>(c, &pats, &texts);
}
fn main() {
    run(
        &[
            Workload { name: "exhaustive", quick: 14 + 14 * 14, thorough: 14 + 14 * 14 + 14 * 14 * 14, f: exhaustive },
            Workload { name: "nested", quick: 50_000, thorough: 800_000, f: nested },
            Workload { name: "lower", quick: 150_000, thorough: 2_400_000, f: lower },
            Workload { name: "upper", quick: 25_000, thorough: 400_000, f: upper },
            Workload { name: "digits", quick: 50_000, thorough: 800_000, f: digits },
            Workload { name: "binary", quick: 150_000, thorough: 2_400_000, f: binary },
            Workload { name: "unary", quick: 20_000, thorough: 320_000, f: unary },
            Workload { name: "bytes", quick: 15_000, thorough: 240_000, f: bytes },
            Workload { name: "dna", quick: 50_000, thorough: 800_000, f: dna },
            Workload { name: "high", quick: 15_000, thorough: 240_000, f: high },
            Workload { name: "many", quick: 4_000, thorough: 80_000, f: many },
            Workload { name: "default", quick: 4_000, thorough: 60_000, f: default_params },
            Workload { name: "copies", quick: 60, thorough: 1500, f: copies },
            Workload { name: "huge", quick: 12, thorough: 240, f: huge },
            Workload { name: "sizes", quick: 1100, thorough: 4400, f: sizes },
            Workload { name: "giant", quick: 2, thorough: 24, f: huge_giant },
        ],
        &["several patterns end together", "empty text", "no patterns"],
    )
}
