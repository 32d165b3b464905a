//! A failed task ends the service.
use app::executor::Executor;
use vrt::*;

pub const TABLE: &[(&str, fn())] = &[("c27_join", c27_join), ("c27_schedules", c27_schedules), ("c27_resources", c27_resources), ("c27_service", c27_service), ("c27_many", c27_many)];
const T: bool = cfg!(feature = "thorough");

static mut FINISHED: usize = 0;
static mut FAILED: usize = 0;
static mut STARTED: usize = 0;
static mut JOINED: bool = false;

/// kind 0 ends, 1, 3 and 4 fail, 2 goes on for ever
fn add(e: &mut Executor, kind: usize, steps: usize) {
    e.spawn_runtime((), move |_| async move {
        unsafe { STARTED += 1 };
        for _ in 0..steps {
            tokio::time::sleep(tokio::time::Duration::from_millis(1)).await;
        }
        match kind {
            0 => unsafe { FINISHED += 1 },
            1 => {
                unsafe { FAILED += 1 };
                panic!("task failed")
            }
            3 => {
                unsafe { FAILED += 1 };
                panic!("task failed after {}", steps)
            }
            4 => {
                unsafe { FAILED += 1 };
                std::panic::panic_any(steps)
            }
            _ => loop {
                tokio::time::sleep(tokio::time::Duration::from_millis(1)).await;
            },
        }
    });
}
fn quiet() {
    sched::on_quiet(|| unsafe {
        // nothing but tasks that go on for ever
        check(FAILED + sched::refused() == 0 && !JOINED, "after a failure of one task waiting ends although others go on");
        reach("goes on");
    });
}
fn wait(e: Executor, kinds: &[usize]) {
    let n = kinds.len();
    let r = catch(move || e.join());
    unsafe { JOINED = true };
    match r {
        Ok(()) => {
            check(kinds.iter().all(|k| [0, 2].contains(k)) && sched::refused() == 0, "a failure is reported to whoever waits");
            check(kinds.iter().all(|k| *k == 0) && unsafe { FINISHED } == n, "waiting returns after all tasks have finished");
            reach("all finished");
        }
        Err(()) => {
            check(unsafe { FAILED } + sched::refused() > 0, "waiting only fails if a task failed");
            reach("failed");
        }
    }
}
fn go(n: usize, steps: usize) {
    sched::set_sleeps(steps * n + 1);
    quiet();
    let mut kinds = Vec::new();
    let mut e = Executor::new();
    for _ in 0..n {
        let k = choose("kind", 3);
        kinds.push(k);
        let s = choose("steps", steps + 1);
        if catch(|| add(&mut e, k, s)).is_err() {
            // the caller knows
            check(sched::refused() > 0, "starting a task only fails for want of resources");
            reach("refused");
            return;
        }
    }
    wait(e, &kinds);
}
// Any of many tasks fails, in any of the ways a task can; the others end or go on.
harness!(c27_many, {
    sched::set_preemptions(0);
    sched::set_delays(if T { 2 } else { 1 });
    let n = [4usize, 9][choose("tasks", 2)];
    sched::set_sleeps(4 * n);
    quiet();
    let rest = [0, 2][choose("the others", 2)];
    let bad = choose("which", n);
    let how = [1, 3, 4, 0][choose("kind", 4)];
    let steps = choose("steps", 3);
    let mut e = Executor::new();
    let kinds: Vec<usize> = (0..n).map(|k| if k == bad { how } else if k == (bad + 1) % n { 0 } else { rest }).collect();
    for (k, kind) in kinds.iter().enumerate() {
        add(&mut e, *kind, if k == bad { steps } else { k % 2 });
    }
    wait(e, &kinds);
});
harness!(c27_join, {
    sched::set_preemptions(0);
    sched::set_delays(if T { 5 } else { 3 });
    go(choose_in("tasks", 1, 3), 1);
});
// No resources for a thread or a runtime.
harness!(c27_resources, {
    sched::set_preemptions(0);
    sched::set_delays(if T { 4 } else { 2 });
    sched::set_refusals(1);
    go(choose_in("tasks", 1, 2), 1);
});
harness!(c27_schedules, {
    sched::set_preemptions(if T { 3 } else { 2 });
    go(choose_in("tasks", 1, 2), 1);
});

// The tasks of the service itself: the node becomes unusable, or the file cannot be written, or
// the server fails.
harness!(c27_service, {
    use crate::model::*;
    use crate::node::*;
    sched::set_preemptions(0);
    sched::set_delays(if T { 4 } else { 2 });
    let o = [addr(0, 1), addr(5, 1)];
    let mut c = Chain::new();
    for h in 0..2 {
        c.push(h, vec![coinbase(h, vec![pay(&o[0], 1 << h)])]);
    }
    c.store().to_file("/vfs/store", &app::logger::Logger::new());
    start(c.clone());
    for (n, v) in [("THREADS", "1"), ("BATCH_SIZE", "10"), ("STORE_FILE_PATH", "/vfs/store"), ("BLOCK_FILES_PATH", "/vfs/blocks"), ("CONFIRMATIONS", "1"), ("RPC_SERVER_HOST", "127.0.0.1"),
        ("RPC_SERVER_PORT", "8332"), ("RPC_SERVER_USER", "u"), ("RPC_SERVER_PASSWORD", "p")] {
        set_env(n, Some(v.as_bytes()));
    }
    let fault = choose("fault", 4);
    static mut FAULT: usize = 0;
    static mut BROKEN: bool = false;
    static mut CHAIN: Option<Chain> = None;
    unsafe {
        FAULT = fault;
        CHAIN = Some(c.clone());
        // the server is up; from now on things go wrong
        hyper::server::DRIVER = Some(|_, _| unsafe {
            let mut c = CHAIN.take().unwrap();
            c.push(9, vec![coinbase(9, vec![])]);
            match FAULT {
                0 => {}
                1 => {
                    BROKEN = true;
                    hyper::TRANSPORT = Some(|_| None);
                }
                2 => {
                    // there is something to save, but no place for it
                    BROKEN = true;
                    switch(c);
                    fs::remove("/vfs/store");
                    fs::rmdir("/vfs");
                }
                _ => {
                    BROKEN = true;
                    panic!("the server fails")
                }
            }
            reach("up");
            // serves for ever
            loop {
                sched::sleep();
            }
        });
    }
    sched::set_sleeps(8);
    sched::on_quiet(|| unsafe {
        check(!BROKEN, "the process ends when a task of the service has failed");
        reach("goes on");
    });
    let r = catch(|| app::vh_main());
    check(r.is_err() && unsafe { BROKEN }, "the process only ends because of a failure");
    reach("ended");
});
