//! C22, fixed programs: a closure that owns a counter or a log changes it and calls itself. Prints one line per
//! program; the driver decides what a difference means (see known-findings.txt).
use rust_cp::misc::recursive_function::*;

fn say<T: PartialEq + std::fmt::Debug>(name: &str, got: T, want: T) {
    println!("PROGRAM {name} {} got {got:?} want {want:?}", if got == want { "same" } else { "DIFFERS" });
}
fn main() {
    let mut n = 0u32;
    let mut f = RecursiveFunction::new(move |f: &mut dyn Callable<u32, u32>, k: u32| -> u32 {
        n += 1;
        if k > 0 { f.call(k - 1); }
        n
    });
    say("count-on-entry", (f.call(3), f.call(0)), (4, 5));
    let mut n = 0u32;
    let mut f = RecursiveFunction::new(move |f: &mut dyn Callable<u32, (u32, u32)>, k: u32| -> (u32, u32) {
        let before = n;
        if k > 0 { f.call(k - 1); }
        n += 1;
        (before, n)
    });
    say("count-on-return", (f.call(3), f.call(0)), ((0, 4), (4, 5)));
    let mut log = vec![];
    let mut f = RecursiveFunction::new(move |f: &mut dyn Callable<u32, Vec<u32>>, k: u32| -> Vec<u32> {
        log.push(k);
        if k > 0 { f.call(k - 1); }
        log.push(100 + k);
        log.clone()
    });
    say("log", (f.call(3), f.call(0)), (vec![3, 2, 1, 0, 100, 101, 102, 103], vec![3, 2, 1, 0, 100, 101, 102, 103, 0, 100]));
}
