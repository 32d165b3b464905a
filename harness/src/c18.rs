//! Thread pools: every item once, ordered where promised, always ending.
use app::sequential_thread_pool::SequentialThreadPool;
use app::thread_pool::ThreadPool;
use vrt::*;

pub const TABLE: &[(&str, fn())] = &[("c18_pool", c18_pool), ("c18_ordered", c18_ordered), ("c18_full", c18_full), ("c18_early", c18_early), ("c18_many", c18_many), ("c18_slow", c18_slow), ("c18_hundreds", c18_hundreds), ("c18_masses", c18_masses)];
const T: bool = cfg!(feature = "thorough");
const MAX: usize = 70_000;
static mut RUNS: [u8; MAX] = [0; MAX];
static mut SLOW: usize = usize::MAX;
static mut DONE: usize = 0;
static mut TOTAL: usize = 0;

fn work(x: usize) -> u32 {
    // other threads may run before and after the work is accounted for
    sched::point();
    unsafe { RUNS[x] += 1 };
    if x == unsafe { SLOW } {
        // everything else is done meanwhile
        sched::wait(&|| unsafe { DONE + 1 == TOTAL });
    }
    unsafe { DONE += 1 };
    sched::point();
    100 + x as u32
}
fn once(n: usize) {
    for k in 0..(n + 100) {
        check(unsafe { RUNS[k] } == (k < n) as u8, "every input is processed exactly once");
    }
}
fn unordered(threads: usize, n: usize) {
    let mut got = Vec::new();
    let mut p = ThreadPool::new(threads, work, 0..n);
    while let Some(x) = p.next() {
        got.push(x);
    }
    check(p.next().is_none(), "the end stays the end");
    once(n);
    check(got.len() == n, "as many results as inputs");
    if got.windows(2).any(|w| w[0] > w[1]) {
        reach("out of order");
    }
    got.sort();
    for (k, x) in got.iter().enumerate() {
        check(*x == 100 + k as u32, "every result is delivered exactly once");
    }
    reach("pool");
}
fn ordered(threads: usize, n: usize) {
    let mut p = SequentialThreadPool::new(threads, work, 0..n);
    for k in 0..n {
        check(p.next() == Some(100 + k as u32), "results in the order of the inputs");
    }
    check(p.next().is_none(), "nothing after the last result");
    check(p.next().is_none(), "the end stays the end");
    once(n);
    reach("ordered");
}
harness!(c18_pool, {
    sched::set_preemptions(if T { 3 } else { 2 });
    unordered(choose_in("threads", 1, 3), choose("inputs", if T { 5 } else { 4 }));
});
harness!(c18_ordered, {
    sched::set_preemptions(if T { 3 } else { 2 });
    ordered(choose_in("threads", 1, 3), choose("inputs", if T { 5 } else { 4 }));
});
// without a bound on the switches
harness!(c18_full, {
    if !T {
        sched::set_preemptions(4);
    }
    let n = choose("inputs", 3);
    let t = if n == 2 && !T { 1 } else { choose_in("threads", 1, 2) };
    if choose_bool("ordered") {
        ordered(t, n)
    } else {
        unordered(t, n)
    }
});
// The consumer stops early: nothing may hang, what came is right.
harness!(c18_early, {
    sched::set_preemptions(1);
    let n = 3;
    let mut p = SequentialThreadPool::new(choose_in("threads", 1, 2), work, 0..n);
    for k in 0..choose("taken", n + 1) {
        check(p.next() == Some(100 + k as u32), "results in the order of the inputs");
    }
    reach("stopped");
});
// Many items; a blocked thread is followed by the next one, with two exceptions.
harness!(c18_many, {
    sched::set_preemptions(0);
    sched::set_delays(if T { 4 } else { 2 });
    let t = choose_in("threads", 1, 6);
    let n = [choose("inputs", 20), 40, 70][choose("more", 3)];
    if n < 20 || choose_bool("ordered") {
        ordered(t, n)
    } else {
        unordered(t, n)
    }
});
// One item takes longer than all the others together.
harness!(c18_slow, {
    sched::set_preemptions(0);
    sched::set_delays(if T { 3 } else { 1 });
    let t = choose_in("threads", 2, 4);
    let n = [3, 20, 70][choose("inputs", 3)];
    unsafe {
        TOTAL = n;
        SLOW = [0, 1, n / 2, n - 1][choose("slow", 4)];
    }
    if choose_bool("ordered") {
        ordered(t, n)
    } else {
        unordered(t, n)
    }
    reach("slow");
});

// So many items that more than one byte counts them.
harness!(c18_hundreds, {
    sched::set_preemptions(0);
    sched::set_delays(0);
    let t = [1usize, 3, 16, 40][choose("threads", 4)];
    let n = [255usize, 300, 1100][choose("inputs", 3)];
    if choose_bool("ordered") {
        ordered(t, n)
    } else {
        unordered(t, n)
    }
    reach("hundreds");
});

// So many items that two bytes do not count them.
harness!(c18_masses, {
    sched::set_preemptions(0);
    sched::set_delays(0);
    let t = [2usize, 5][choose("threads", 2)];
    if choose_bool("ordered") {
        ordered(t, 65_600)
    } else {
        unordered(t, 65_600)
    }
    reach("masses");
});
