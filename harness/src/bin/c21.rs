//! C21 token reader: the generated token list is the specification.
use rust_cp::misc::input::In;
use vmon::*;

#[derive(Clone, Debug, PartialEq)]
enum V { I32(i32), I64(i64), Us(usize), U8(u8), I128(i128), F(f64), B(bool), Ch(char), S(String) }
const WS: &[&str] = &[" ", "\n", "\t", "\r\n", "\r", "\u{0B}", "\u{0C}", "\u{85}", "\u{A0}", "\u{1680}", "\u{2000}", "\u{2003}", "\u{200a}", "\u{2028}", "\u{2029}", "\u{202F}", "\u{205F}", "\u{3000}"];
fn token(r: &mut Rng) -> (String, V) {
    match r.below(10) {
        0 => { let v = match r.below(4) { 0 => i32::MIN, 1 => i32::MAX, _ => r.u64() as i32 >> r.below(32) }; (dec(r, v as i128), V::I32(v)) }
        1 => { let v = match r.below(4) { 0 => i64::MIN, 1 => i64::MAX, _ => r.u64() as i64 >> r.below(64) }; (dec(r, v as i128), V::I64(v)) }
        2 => { let v = match r.below(4) { 0 => usize::MAX, 1 => 0, _ => r.u64() as usize >> r.below(64) }; (dec(r, v as i128), V::Us(v)) }
        3 => { let v = r.u64() as u8; (dec(r, v as i128), V::U8(v)) }
        4 => { let v = r.u128() as i128 >> r.below(128); (v.to_string(), V::I128(v)) }
        5 => { let v = (r.u64() as i64 >> 20) as f64 / 1024.0; (format!("{v}"), V::F(v)) }
        6 => { let v = r.chance(1, 2); (v.to_string(), V::B(v)) }
        7 => { let v = *r.pick(&['a', 'Z', '0', '-', '本', '𝄞', '\u{200B}', 'é', '"', '\u{1c}', '\u{feff}', '\u{180e}', '\0', '\u{10ffff}']); (v.to_string(), V::Ch(v)) }
        _ => { let l = r.range(1, 8); let s: String = (0..l).map(|_| *r.pick(&['a', 'b', 'Q', '7', '-', ',', '.', '本', '𝄞', '\u{200B}', 'é', '\u{7f}', '\u{1}', '+', '\u{feff}', '\u{2060}', '\u{1f}', '\0'])).collect(); (s.clone(), V::S(s)) }
    }
}
fn dec(r: &mut Rng, v: i128) -> String {
    match r.below(8) { 0 if v >= 0 => format!("+{v}"), 1 if v >= 0 => format!("000{v}"), 2 if v < 0 => format!("-00{}", v.unsigned_abs()), _ => v.to_string() }
}
fn sep(r: &mut Rng, min: usize) -> String {
    let style = r.below(4);
    (0..r.range(min, min + if style == 0 { 3 } else { 0 })).map(|_| if style <= 1 { *r.pick(WS) } else { *r.pick(&WS[..4]) }).collect()
}
fn build(r: &mut Rng, toks: &[String]) -> String {
    let mut s = sep(r, 0);
    for (i, t) in toks.iter().enumerate() {
        if i > 0 { s += &sep(r, 1) }
        s += t;
    }
    s += &sep(r, 0);
    s
}
fn drive(c: &mut Case, toks: &[(String, V)], text: &str) {
    let text = text.to_string();
    op!(c, 1, [toks.len(), text.len()], "text {:?}", text);
    for b in text.bytes() { c.h(b as u64) }
    let mut inp = In::new(&text);
    let mut i = 0;
    while i < toks.len() {
        let (t, v) = &toks[i];
        let opt = c.rng.chance(1, 3);
        let mode = c.rng.below(6);
        macro_rules! rd { ($t:ty) => { if opt { inp.checked_read::<$t>() } else { Some(inp.read::<$t>()) } } }
        c.ops += 1;
        if mode == 0 {
            // a run read as strings in one vector read
            let rest = toks.len() - i;
            let top = if rest > 64 && !c.rng.chance(1, if i == 0 { 2 } else { 200 }) { 64 } else { rest };
            let mut k = c.rng.range(1, top);
            // round sizes too
            if k > 64 && c.rng.chance(1, 2) { let b = c.rng.below(usize::BITS as usize - k.leading_zeros() as usize); k = k >> b << b }
            let got = inp.vec::<String>(k);
            check_eq!(c, got, toks[i..i + k].iter().map(|x| x.0.clone()).collect::<Vec<_>>(), "vec({}) at token {}", k, i);
            i += k;
            c.hit("vector read");
            continue;
        }
        if mode == 1 && c.rng.chance(1, 4) {
            check_eq!(c, inp.vec::<i64>(0), Vec::<i64>::new(), "vec(0) at token {}", i);
        }
        match v {
            V::I32(x) if mode == 2 => { check_eq!(c, inp.i32(), *x, "i32() of {:?} (token {})", t, i); }
            V::I64(x) if mode == 2 => { check_eq!(c, inp.i64(), *x, "i64() of {:?} (token {})", t, i); }
            V::Us(x) if mode == 2 => { check_eq!(c, inp.usize(), *x, "usize() of {:?} (token {})", t, i); }
            _ if mode == 3 => { check_eq!(c, inp.bytes(), t.as_bytes().to_vec(), "bytes() of {:?} (token {})", t, i); }
            _ if mode == 4 => { check_eq!(c, inp.chars(), t.chars().collect::<Vec<_>>(), "chars() of {:?} (token {})", t, i); }
            V::I32(x) => { check_eq!(c, rd!(i32), Some(*x), "i32 {:?} (token {})", t, i); }
            V::I64(x) => { check_eq!(c, rd!(i64), Some(*x), "i64 {:?} (token {})", t, i); }
            V::Us(x) => { check_eq!(c, rd!(usize), Some(*x), "usize {:?} (token {})", t, i); }
            V::U8(x) => { check_eq!(c, rd!(u8), Some(*x), "u8 {:?} (token {})", t, i); }
            V::I128(x) => { check_eq!(c, rd!(i128), Some(*x), "i128 {:?} (token {})", t, i); }
            V::F(x) => { check_eq!(c, rd!(f64), Some(*x), "f64 {:?} (token {})", t, i); }
            V::B(x) => { check_eq!(c, rd!(bool), Some(*x), "bool {:?} (token {})", t, i); }
            V::Ch(x) => { check_eq!(c, rd!(char), Some(*x), "char {:?} (token {})", t, i); }
            V::S(x) => { check_eq!(c, rd!(String), Some(x.clone()), "String {:?} (token {})", t, i); }
        }
        i += 1;
    }
    // a vector read either delivers the number asked for, or does not return
    match c.rng.below(6) {
        0 => {
            let k = toks.len() + c.rng.range(1, 3);
            let mut all = In::new(&text);
            let r = expect_panic(|| all.vec::<String>(k));
            if let Err(v) = r { violation(format!("vec({k}) on {} tokens returned {v:?}", toks.len())) }
            c.hit("vector read longer than the input");
        }
        1 if !toks.is_empty() => {
            // as integers: only if every token is one
            let mut all = In::new(&text);
            let want: Option<Vec<i64>> = toks.iter().map(|t| t.0.parse().ok()).collect();
            match (expect_panic(|| all.vec::<i64>(toks.len())), want) {
                (Ok(_), Some(w)) => violation(format!("vec::<i64>({}) of {text:?} panicked, want {w:?}", toks.len())),
                (Err(g), Some(w)) => { check_eq!(c, g, w, "vec::<i64> of {:?}", text); }
                (Err(g), None) => violation(format!("vec::<i64>({}) of {text:?}, which holds other tokens, returned {g:?}", toks.len())),
                (Ok(_), None) => c.hit("vector read over an unreadable token"),
            }
        }
        _ => {}
    }
    for k in 0..3 {
        check_eq!(c, inp.checked_read::<String>(), None, "optional read number {} past the last token of {:?}", k, text);
    }
    check_eq!(c, inp.vec::<u8>(0), Vec::<u8>::new(), "vec(0) past the end");
    if toks.is_empty() { c.hit("no tokens") }
    c.nontrivial = toks.len() > 1;
}
fn mixed(c: &mut Case) {
    let n = c.rng.below(14);
    let toks: Vec<(String, V)> = (0..n).map(|_| token(&mut c.rng)).collect();
    let text = build(&mut c.rng, &toks.iter().map(|t| t.0.clone()).collect::<Vec<_>>());
    drive(c, &toks, &text);
}
fn long(c: &mut Case) {
    let n = if c.exact > 0 { c.exact } else if c.giant { gen::giant_n(c) } else { c.rng.range(500, 5000) };
    let toks: Vec<(String, V)> = (0..n).map(|_| { let v = c.rng.u64() as i64; (v.to_string(), V::I64(v)) }).collect();
    let text = build(&mut c.rng, &toks.iter().map(|t| t.0.clone()).collect::<Vec<_>>());
    drive(c, &toks, &text);
}
/// the usual contest shape: n, then n numbers, then a grid of characters
fn contest(c: &mut Case) {
    let (n, h) = (c.rng.below(20), c.rng.below(6));
    let a: Vec<i64> = (0..n).map(|_| c.rng.u64() as i64).collect();
    let g: Vec<String> = (0..h).map(|_| (0..1 + c.rng.below(6)).map(|_| if c.rng.chance(1, 2) { '#' } else { '.' }).collect()).collect();
    let nl = *c.rng.pick(&["\n", "\r\n", " \n"]);
    let text = format!("{n} {h}{nl}{}{nl}{}{}", a.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "), g.join(nl), if c.rng.chance(1, 2) { nl } else { "" });
    op!(c, 2, [n, h], "{:?}", text);
    for b in text.bytes() { c.h(b as u64) }
    let mut i = In::new(&text);
    check_eq!(c, (i.usize(), i.i32()), (n, h as i32), "header of {:?}", text);
    check_eq!(c, i.vec::<i64>(n), a, "array of {:?}", text);
    for r in &g { check_eq!(c, i.chars(), r.chars().collect::<Vec<_>>(), "row of {:?}", text) }
    check_eq!(c, i.checked_read::<i32>(), None, "end of {:?}", text);
    c.nontrivial = n > 0;
}
/// reads of any type, whatever the tokens are: an answer is the value of the next token, or there is none
fn mistyped(c: &mut Case) {
    let n = c.rng.range(1, 9);
    let toks: Vec<String> = (0..n).map(|_| token(&mut c.rng).0).collect();
    let text = build(&mut c.rng, &toks);
    op!(c, 3, [n, text.len()], "text {:?}", text);
    for b in text.bytes() { c.h(b as u64) }
    let mut inp = In::new(&text);
    for (i, t) in toks.iter().enumerate() {
        c.ops += 1;
        let opt = c.rng.chance(1, 2);
        macro_rules! rd {
            ($t:ty, $plain:expr) => {{
                let want = t.parse::<$t>().ok();
                // a vector read of one token, a named read, a plain read or an optional one
                let how = c.rng.below(3);
                let r = expect_panic(|| match how {
                    _ if opt => inp.checked_read::<$t>(),
                    0 => { let mut v = inp.vec::<$t>(1); if v.len() == 1 { v.pop() } else { None } }
                    1 => Some($plain(&mut inp)),
                    _ => Some(inp.read::<$t>()),
                });
                let name = stringify!($t);
                match (r, want) {
                    (Ok(_), None) => c.hit("unreadable token"),
                    (Ok(_), Some(w)) => violation(format!("reading token {i} {t:?} of {text:?} as {name} panicked, want {w:?}")),
                    (Err(g), None) => violation(format!("reading token {i} {t:?} of {text:?} as {name} (optional: {opt}) returned {g:?}")),
                    (Err(g), Some(w)) => { check_eq!(c, g.map(|x| format!("{x:?}")), Some(format!("{w:?}")), "token {} {:?} of {:?} as {}", i, t, text, name); }
                }
            }};
        }
        match c.rng.below(9) {
            0 => rd!(i32, In::i32),
            1 => rd!(i64, In::i64),
            2 => rd!(usize, In::usize),
            3 => rd!(u8, In::read::<u8>),
            4 => rd!(i128, In::read::<i128>),
            5 => rd!(f64, In::read::<f64>),
            6 => rd!(bool, In::read::<bool>),
            7 => rd!(char, In::read::<char>),
            _ => rd!(String, In::read::<String>),
        }
    }
    check_eq!(c, inp.checked_read::<String>(), None, "optional read past the last token of {:?}", text);
    c.nontrivial = n > 1;
}
/// the same around and above 2^20 elements
fn long_giant(c: &mut Case) {
    c.giant = true;
    long(c)
}
/// tokens and gaps of any length
fn wide(c: &mut Case) {
    let r = &mut c.rng;
    let len = |r: &mut Rng| match r.below(6) { 0 => gen::huge_n(r), 1 => (1usize << r.range(3, 13)) + r.below(5) - 2, _ => r.range(1, 700) };
    let k = r.range(1, 6);
    let mut text = String::new();
    let mut want: Vec<(String, Option<u64>)> = vec![];
    for i in 0..k {
        let g = if r.chance(1, 3) { len(r) } else { 1 };
        let w = if r.chance(1, 2) { " " } else { *r.pick(WS) };
        if i > 0 || r.chance(1, 2) { for _ in 0..g { text.push_str(if r.chance(1, 50) { *r.pick(WS) } else { w }) } }
        let l = len(r);
        let (t, v) = match r.below(3) {
            // a number behind very many zeros
            0 => { let v = r.u64() >> r.below(64); let z = "0".repeat(l); (format!("{}{z}{v}", if r.chance(1, 2) { "+" } else { "" }), Some(v)) }
            1 => ((0..l).map(|_| *r.pick(&['本', '𝄞', 'é', 'x', '\u{200B}'])).collect(), None),
            _ => ((0..l).map(|_| (b'!' + r.below(94) as u8) as char).collect(), None),
        };
        text += &t;
        want.push((t, v));
    }
    if r.chance(1, 2) { for _ in 0..len(r) { text.push('\n') } }
    op!(c, 4, [k, text.len()], "{k} tokens in a text of {} bytes", text.len());
    c.h(text.len() as u64);
    for b in text.bytes().step_by(text.len() / 50 + 1) { c.h(b as u64) }
    let mut i = In::new(&text);
    for (k, (t, v)) in want.iter().enumerate() {
        match c.rng.below(4) {
            0 => check!(c, i.bytes() == t.as_bytes(), "bytes of token {} of {} bytes", k, t.len()),
            1 => check!(c, i.chars() == t.chars().collect::<Vec<_>>(), "characters of token {} of {} bytes", k, t.len()),
            2 => if let Some(v) = v { check_eq!(c, i.read::<u64>(), *v, "number {} of {} digits", k, t.len()) } else { check!(c, i.read::<String>() == *t, "token {} of {} bytes", k, t.len()) },
            _ => if let Some(v) = v { check_eq!(c, i.vec::<u64>(1), vec![*v], "number {} of {} digits", k, t.len()) } else { check!(c, i.checked_read::<String>().as_ref() == Some(t), "token {} of {} bytes", k, t.len()) },
        }
    }
    check_eq!(c, i.checked_read::<String>(), None, "after the last token");
    c.max("longest text", text.len() as u64);
    c.nontrivial = true;
}
/// every character there is: alone, inside a token, and as a gap where it is white space
fn every_char(c: &mut Case) {
    let from = c.idx as u32 * 4352;
    op!(c, 5, [from], "characters from {from:#x}");
    c.h(from as u64);
    for u in from..from + 4352 {
        let Some(ch) = char::from_u32(u) else { continue };
        c.events += 1;
        let text = format!("a{ch}b{ch}");
        let mut i = In::new(&text);
        if ch.is_whitespace() {
            check_eq!(c, (i.read::<String>(), i.chars(), i.checked_read::<String>()), ("a".to_string(), vec!['b'], None), "{:?}", text);
        } else {
            check_eq!(c, (i.chars(), i.checked_read::<String>()), (vec!['a', ch, 'b', ch], None), "{:?}", text);
            let text = format!("{ch} {ch}\n{ch}");
            let mut i = In::new(&text);
            check_eq!(c, (i.read::<char>(), i.bytes(), i.chars()), (ch, ch.to_string().into_bytes(), vec![ch]), "{:?}", text);
            check_eq!(c, i.checked_read::<char>(), None, "{:?}", text);
        }
    }
    c.nontrivial = true;
}
/// one case for every size
fn sizes(c: &mut Case) {
    c.exact = c.idx as usize + 1;
    long(c)
}
fn main() {
    run(
        &[
            Workload { name: "mixed", quick: 600_000, thorough: 12_000_000, f: mixed },
            Workload { name: "contest", quick: 100_000, thorough: 1_600_000, f: contest },
            Workload { name: "mistyped", quick: 100_000, thorough: 2_000_000, f: mistyped },
            Workload { name: "long", quick: 120, thorough: 3000, f: long },
            Workload { name: "wide", quick: 2000, thorough: 40_000, f: wide },
            Workload { name: "every-char", quick: 256, thorough: 256, f: every_char },
            Workload { name: "sizes", quick: 1100, thorough: 4400, f: sizes },
            Workload { name: "giant", quick: 2, thorough: 24, f: long_giant },
        ],
        &["vector read", "no tokens", "vector read longer than the input", "vector read over an unreadable token", "unreadable token"],
    )
}
