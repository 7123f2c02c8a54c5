//! C22, closures that own state and change it before, between and after calling themselves. Only meaningful
//! without optimisation: with it the aliasing rules that `call` breaks are exploited (see the known finding and
//! bin c22k), so the driver builds this monitor in the profile "plain".
use rust_cp::misc::recursive_function::*;
use std::collections::BTreeMap;
use vmon::*;

#[derive(Clone, Debug, PartialEq, Default)]
struct St { n: u64, mix: i64, log: Vec<i64>, map: BTreeMap<i64, u32> }
impl St {
    fn enter(&mut self, x: i64) { self.n += 1; self.mix = self.mix.wrapping_mul(31).wrapping_add(x); self.log.push(x); *self.map.entry(x % 5).or_default() += 1 }
    fn leave(&mut self, x: i64) { self.mix ^= x << 7; self.log.push(!x); if self.log.len() > 40 { self.log.drain(..20); } }
}
fn named(st: &mut St, a: &[i64]) -> (u64, i64, usize) {
    let x = a[0];
    st.enter(x + a.iter().skip(1).sum::<i64>());
    if x > 0 {
        let mut b = a.to_vec();
        b[0] = x - 1;
        if b.len() > 2 { b[1..].rotate_left(1) }
        let q = named(st, &b);
        st.mix = st.mix.wrapping_add(q.1);
        if x % 2 == 0 { b[0] = x - 2; named(st, &b); }
        st.leave(x);
    }
    (st.n, st.mix, st.log.len())
}
macro_rules! ty { ($p:ident) => { i64 } }
macro_rules! arity {
    ($f:ident, $k:expr, $Name:ident, $Call:ident, ($($p:ident),*), ($($i:expr),*)) => {
        fn $f(c: &mut Case) {
            let mut st = St { mix: c.rng.irange(-5, 5), ..Default::default() };
            let mut w = st.clone();
            let mut f = $Name::new(move |f: &mut dyn $Call<$(ty!($p),)* (u64, i64, usize)>, $($p: i64),*| -> (u64, i64, usize) {
                let a: [i64; $k] = [$($p),*];
                let x = a[0];
                st.enter(x + a.iter().skip(1).sum::<i64>());
                if x > 0 {
                    let mut b = a;
                    b[0] = x - 1;
                    if $k > 2 { b[1..].rotate_left(1) }
                    let q = f.call($(b[$i]),*);
                    st.mix = st.mix.wrapping_add(q.1);
                    if x % 2 == 0 { b[0] = x - 2; f.call($(b[$i]),*); }
                    st.leave(x);
                }
                (st.n, st.mix, st.log.len())
            });
            for _ in 0..c.rng.range(1, 4) {
                let mut a = [0i64; $k];
                for x in a.iter_mut() { *x = c.rng.irange(-50, 50) }
                a[0] = c.rng.irange(0, 10);
                op!(c, $k, [a[0]], "{} owning its state, called with {:?}", stringify!($Name), a);
                c.h_slice(&a);
                let want = named(&mut w, &a);
                check_eq!(c, f.call($(a[$i]),*), want, "{} {:?} (calls so far, mixed state, log length)", stringify!($Name), a);
                c.nontrivial |= a[0] > 0;
            }
            c.hit(stringify!($Name));
        }
    };
}
arity!(arity1, 1, RecursiveFunction, Callable, (a), (0));
arity!(arity2, 2, RecursiveFunction2, Callable2, (a, b), (0, 1));
arity!(arity3, 3, RecursiveFunction3, Callable3, (a, b, d), (0, 1, 2));
arity!(arity4, 4, RecursiveFunction4, Callable4, (a, b, d, e), (0, 1, 2, 3));
arity!(arity5, 5, RecursiveFunction5, Callable5, (a, b, d, e, g), (0, 1, 2, 3, 4));
arity!(arity6, 6, RecursiveFunction6, Callable6, (a, b, d, e, g, h), (0, 1, 2, 3, 4, 5));
arity!(arity7, 7, RecursiveFunction7, Callable7, (a, b, d, e, g, h, i), (0, 1, 2, 3, 4, 5, 6));
arity!(arity8, 8, RecursiveFunction8, Callable8, (a, b, d, e, g, h, i, j), (0, 1, 2, 3, 4, 5, 6, 7));
arity!(arity9, 9, RecursiveFunction9, Callable9, (a, b, d, e, g, h, i, j, k), (0, 1, 2, 3, 4, 5, 6, 7, 8));
fn arity0(c: &mut Case) {
    let n = c.rng.below(20) as i64;
    op!(c, 0, [n], "RecursiveFunction0 owning its state, countdown from {n}");
    let (mut left, mut log) = (n, vec![]);
    let mut f = RecursiveFunction0::new(move |f: &mut dyn Callable0<(i64, Vec<i64>)>| -> (i64, Vec<i64>) {
        log.push(left);
        if left > 0 { left -= 1; f.call(); log.push(-left); left += 1 }
        (left, log.clone())
    });
    for k in 1..4 {
        let one: Vec<i64> = (0..=n).rev().chain((0..n).map(|x| -x)).collect();
        check_eq!(c, f.call(), (n, one.repeat(k)), "RecursiveFunction0 owning its state, call number {}", k);
    }
    c.hit("RecursiveFunction0");
    c.nontrivial = n > 0;
}
fn main() {
    run(
        &[
            Workload { name: "own0", quick: 3000, thorough: 60_000, f: arity0 },
            Workload { name: "own1", quick: 3000, thorough: 60_000, f: arity1 },
            Workload { name: "own2", quick: 3000, thorough: 60_000, f: arity2 },
            Workload { name: "own3", quick: 3000, thorough: 60_000, f: arity3 },
            Workload { name: "own4", quick: 3000, thorough: 60_000, f: arity4 },
            Workload { name: "own5", quick: 3000, thorough: 60_000, f: arity5 },
            Workload { name: "own6", quick: 3000, thorough: 60_000, f: arity6 },
            Workload { name: "own7", quick: 3000, thorough: 60_000, f: arity7 },
            Workload { name: "own8", quick: 3000, thorough: 60_000, f: arity8 },
            Workload { name: "own9", quick: 3000, thorough: 60_000, f: arity9 },
        ],
        &["RecursiveFunction0", "RecursiveFunction", "RecursiveFunction2", "RecursiveFunction3", "RecursiveFunction4", "RecursiveFunction5", "RecursiveFunction6", "RecursiveFunction7", "RecursiveFunction8", "RecursiveFunction9"],
    )
}
