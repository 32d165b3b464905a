//! Cooperative tasks over fibers; every scheduling decision is a symbolic choice.
pub struct Task {
    fiber: u64,
    wait: Option<*const dyn Fn() -> bool>,
    done: bool,
    sleeping: bool,
}
struct Sched {
    tasks: Vec<Task>,
    cur: usize,
    preemptions: usize,
    delays: usize,
    sleeps: usize,
    points: usize,
}
static mut S: Option<Sched> = None;
static mut EXCLUDE: usize = usize::MAX;
/// What to do when nothing can run: None = "deadlock" violation.
static mut IDLE: Option<fn()> = None;
/// What to do when only sleepers with exhausted budget remain.
static mut QUIET: Option<fn()> = None;

fn s() -> &'static mut Sched {
    unsafe { S.as_mut().unwrap() }
}
pub fn init() {
    unsafe {
        S = Some(Sched {
            tasks: vec![Task { fiber: crate::fiber_cur(), wait: None, done: false, sleeping: false }],
            cur: 0,
            preemptions: usize::MAX,
            delays: usize::MAX,
            sleeps: usize::MAX,
            points: 0,
        });
        IDLE = None;
        QUIET = None;
    }
}
/// At most `n` involuntary switches on a path (switches at blocking operations are not counted).
pub fn set_preemptions(n: usize) {
    s().preemptions = n;
}
/// When a task blocks or ends the next ready one in round-robin order goes on; at most `n` times
/// on a path another one does.
pub fn set_delays(n: usize) {
    s().delays = n;
}
/// After `n` sleeps the sleeping tasks sleep for ever.
pub fn set_sleeps(n: usize) {
    s().sleeps = n;
}
static mut REFUSALS: usize = 0;
static mut REFUSED: usize = 0;
/// Up to `n` times the operating system has no resources for a thread or runtime.
pub fn set_refusals(n: usize) {
    unsafe {
        REFUSALS = n;
        REFUSED = 0;
    }
}
pub fn refused() -> usize {
    unsafe { REFUSED }
}
/// Are there no resources for a new thread or runtime this time?
pub fn refuse() -> bool {
    unsafe {
        if REFUSALS > 0 && crate::choose_bool("out of resources") {
            REFUSALS -= 1;
            REFUSED += 1;
            true
        } else {
            false
        }
    }
}
pub fn on_idle(f: fn()) {
    unsafe { IDLE = Some(f) }
}
pub fn on_quiet(f: fn()) {
    unsafe { QUIET = Some(f) }
}
pub fn tasks() -> usize {
    s().tasks.len()
}
/// number of tasks that have not ended
pub fn live() -> usize {
    s().tasks.iter().filter(|t| !t.done).count()
}
pub fn current() -> usize {
    s().cur
}
pub fn is_done(t: usize) -> bool {
    s().tasks[t].done
}

extern "C-unwind" fn start(a: usize) {
    let f: Box<Box<dyn FnOnce()>> = unsafe { Box::from_raw(a as *mut Box<dyn FnOnce()>) };
    f();
    let c = s().cur;
    s().tasks[c].done = true;
    pick(false);
    crate::fail("scheduler: a finished task was resumed")
}

pub fn spawn(f: Box<dyn FnOnce()>) -> usize {
    let a = Box::into_raw(Box::new(f)) as usize;
    let fiber = crate::fiber_new(start, a);
    s().tasks.push(Task { fiber, wait: None, done: false, sleeping: false });
    s().tasks.len() - 1
}

/// Every task but the first ends here and now.
pub fn kill_all_but_main() {
    for k in 1..s().tasks.len() {
        s().tasks[k].done = true;
    }
    if s().cur != 0 {
        pick(false);
        crate::fail("scheduler: a killed task was resumed");
    }
}

fn ready(t: usize) -> bool {
    let t = &s().tasks[t];
    if t.done {
        return false;
    }
    match t.wait {
        None => true,
        Some(p) => unsafe { (*p)() },
    }
}

fn pick(cur_runnable: bool) {
    let n = s().tasks.len();
    let cur = s().cur;
    let mut c: Vec<usize> = Vec::with_capacity(n);
    if cur_runnable {
        c.push(cur);
    }
    if !(cur_runnable && s().preemptions == 0) {
        for k in 1..=n {
            let t = (cur + k) % n;
            if (t != cur || !cur_runnable) && t != unsafe { EXCLUDE } && ready(t) {
                c.push(t);
            }
        }
    }
    unsafe { EXCLUDE = usize::MAX };
    if c.is_empty() {
        let sleepers = s().tasks.iter().any(|t| !t.done && t.sleeping);
        unsafe {
            if sleepers {
                if let Some(f) = QUIET {
                    f();
                }
                crate::stop();
            }
            if let Some(f) = IDLE {
                f();
                crate::stop();
            }
        }
        crate::fail("deadlock: no task can run");
    }
    if !cur_runnable && s().delays == 0 {
        c.truncate(1);
    }
    let k = if c.len() == 1 { 0 } else { crate::choose("sched", c.len()) };
    if k > 0 && !cur_runnable && s().delays != usize::MAX {
        s().delays -= 1;
    }
    let t = c[k];
    if t != cur {
        if cur_runnable && s().preemptions != usize::MAX {
            s().preemptions -= 1;
        }
        s().cur = t;
        let f = s().tasks[t].fiber;
        crate::fiber_switch(f);
    }
}

/// A point at which another task may run.
pub fn point() {
    s().points += 1;
    if s().tasks.len() > 1 {
        pick(true);
    }
}
pub fn yield_now() {
    if s().tasks.len() > 1 {
        // a voluntary switch does not count against the bound
        let p = s().preemptions;
        if p == 0 {
            s().preemptions = 1;
            pick(true);
            s().preemptions = 0;
        } else {
            point();
        }
    }
}
/// Let another task run if there is one.
pub fn yield_fair() {
    let cur = s().cur;
    if (0..s().tasks.len()).any(|t| t != cur && ready(t)) {
        // as if blocked for a moment
        unsafe { EXCLUDE = cur };
        pick(false);
    }
}
/// Block until `f` holds.
pub fn wait(f: &dyn Fn() -> bool) {
    if f() {
        return;
    }
    let c = s().cur;
    // the reference outlives the wait: the waiting fiber is suspended inside this frame
    let p: *const dyn Fn() -> bool = unsafe { std::mem::transmute(f) };
    s().tasks[c].wait = Some(p);
    pick(false);
    s().tasks[c].wait = None;
}
/// Sleep: any amount of time may pass, so any number of steps of the others.
pub fn sleep() {
    let c = s().cur;
    if s().sleeps == 0 {
        s().tasks[c].sleeping = true;
        wait(&|| false);
    }
    if s().sleeps != usize::MAX {
        s().sleeps -= 1;
    }
    if s().delays != usize::MAX {
        yield_fair();
        return;
    }
    if s().tasks.len() > 1 {
        let p = s().preemptions;
        if p != usize::MAX {
            s().preemptions = p + 1;
        }
        pick(true);
        if p != usize::MAX {
            s().preemptions = p;
        }
    }
}
