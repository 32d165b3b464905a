//! Starting the service.
use crate::files::*;
use crate::http::*;
use crate::model::*;
use crate::node::*;
use hyper::{Body, Request, Response};
use vrt::*;

pub const TABLE: &[(&str, fn())] = &[("c23_saved", c23_saved), ("c23_files", c23_files), ("c23_shapes", c23_shapes), ("c23_restart", c23_restart), ("c23_later", c23_later), ("c23_values", c23_values), ("c23_long", c23_long)];
const T: bool = cfg!(feature = "thorough");
type Ask<'a> = &'a mut dyn FnMut(Request<Body>) -> Response<Body>;
const STORE: &str = "/vfs/store";
const M: &str = "after the start the answers are those of the node's chain";

fn owners() -> [Addr; 3] {
    [addr(0, 1), addr(5, 2), addr(0, 3)]
}
/// `n` blocks in which owners pay each other; `salt` tells branches apart.
fn grow(c: &mut Chain, n: usize, salt: u32) {
    let o = owners();
    for _ in 0..n {
        let h = c.blocks.len();
        let mut txs = vec![coinbase(salt + h as u32, vec![pay(&o[h % 2], 1000 + h as u64), pay(&o[2], 10)])];
        if h > 0 {
            // the reward of the block before moves on
            let p = &c.blocks[h - 1].txs[0];
            txs.push(Tx::new(salt, vec![(p.id, 0)], vec![pay(&o[(h + 1) % 3], 600 + h as u64), pay(&o[h % 3], 300)]));
        }
        c.push(salt + h as u32, txs);
    }
}
fn settings(confirmations: usize, threads: usize, batch: usize) {
    let (a, b, c) = (confirmations.to_string(), threads.to_string(), batch.to_string());
    for (n, v) in [("THREADS", &b[..]), ("BATCH_SIZE", &c), ("STORE_FILE_PATH", STORE), ("BLOCK_FILES_PATH", DIR), ("CONFIRMATIONS", &a), ("RPC_SERVER_HOST", "127.0.0.1"),
        ("RPC_SERVER_PORT", "8332"), ("RPC_SERVER_USER", "u"), ("RPC_SERVER_PASSWORD", "p")] {
        set_env(n, Some(v.as_bytes()));
    }
}
/// Every answer for every depth, by HTTP.
fn answers(ask_: Ask, confirmations: usize) {
    let n = node();
    for c in 0..=confirmations {
        let l = ledger_at(&n.chain, &n.pool, c);
        let list: Vec<String> = owners().iter().map(|o| o.app().to_string()).collect();
        for utxos in [false, true] {
            let what = if utxos { "utxos" } else { "balance" };
            let a = ask(ask_, "GET", format!("/addresses/{}?addresses={}&confirmations={}", what, list.join(","), c).as_bytes(), vec![]).unwrap();
            check(a.status == 200, M);
            let j = a.json();
            for (k, o) in owners().iter().enumerate() {
                check(if utxos { same_utxos(&j[k]["utxos"], &l, o) } else { same_amount(&j[k]["balance"], total(&l, o)) }, M);
            }
        }
        if c + 1 < confirmations {
            continue;
        }
        let a = ask(ask_, "GET", format!("/addresses/{}/balance?confirmations={}", list[0], c).as_bytes(), vec![]).unwrap();
        check(a.status == 200 && same_amount(&a.json(), total(&l, &owners()[0])), M);
        let a = ask(ask_, "GET", format!("/addresses/{}/utxos?confirmations={}", list[2], c).as_bytes(), vec![]).unwrap();
        check(a.status == 200 && same_utxos(&a.json(), &l, &owners()[2]), M);
    }
    let a = ask(ask_, "GET", format!("/addresses/{}/balance?confirmations={}", owners()[0].app().to_string(), confirmations + 1).as_bytes(), vec![]).unwrap();
    a.refused("no more confirmations than configured");
}
static mut DEPTH: usize = 0;
/// Starts the service; `f` gets to ask once it is up.
fn run(confirmations: usize, f: fn(Ask)) {
    unsafe {
        DEPTH = confirmations;
        UP = false;
        F = Some(f);
        hyper::server::DRIVER = Some(|at, ask| {
            unsafe { UP = true };
            check(at.to_string() == "0.0.0.0:8000" || at.port() == 8000, "the server is bound to the configured address");
            unsafe { F.unwrap()(ask) };
            panic!("the end of this run");
        });
    }
    sched::set_sleeps(40);
    let _ = catch(|| app::vh_main());
    check(unsafe { UP }, "the service starts");
    sched::kill_all_but_main();
}
static mut UP: bool = false;
static mut F: Option<fn(Ask)> = None;
fn saved() -> Option<app::store::IndexedStore> {
    app::store::IndexedStore::from_file(STORE, &app::logger::Logger::new())
}
fn pool() {
    // a spend of an output of the tip, and one that is not deliverable
    let o = owners();
    let n = node();
    if let Some(b) = n.chain.blocks.last() {
        n.pool = vec![Tx::new(77, vec![(b.txs[0].id, 0)], vec![pay(&o[2], 5), pay(&o[1], 6)])];
    }
}
// From a saved index, whatever there is in the block files.
harness!(c23_saved, {
    sched::set_preemptions(0);
    sched::set_delays(if T { 2 } else { 1 });
    let conf = choose_in("confirmations", 1, if T { 6 } else { 4 });
    // blocks of the saved index, blocks since then
    let kept = choose("saved", 3);
    let recent = conf - 1 + choose("new", 3);
    let mut c = Chain::new();
    grow(&mut c, kept + recent, 100);
    prefix(&c, kept).store().to_file(STORE, &app::logger::Logger::new());
    let mut other = Chain::new();
    match choose("block files", 3) {
        0 => (),
        1 => {
            grow(&mut other, 3, 900);
            file("blk00000.dat", &other.blocks.iter().collect::<Vec<_>>(), 0)
        }
        _ => fs::put("/vfs/blocks/blk00000.dat", vec![1, 2, 3]),
    }
    settings(conf, 1, 100);
    start(c);
    pool();
    run(conf, |a| answers(a, unsafe { DEPTH }));
    reach("resumed");
});
// From block files.
fn from_files(conf: usize, threads: usize, batch: usize, kept: usize, now: Chain, c: &Chain) {
    settings(conf, threads, batch);
    start(now);
    pool();
    unsafe {
        FILED = Some(prefix(c, kept));
    }
    run(conf, |a| {
        let want = unsafe { FILED.as_ref().unwrap() };
        match saved() {
            None => check(false, "the index that was built is saved"),
            Some(s) => check_index(&s, &want.blocks, &owners(), "the saved index is that of the block files but for the newest confirmations-1 blocks"),
        }
        answers(a, unsafe { DEPTH })
    });
    reach("built");
}
harness!(c23_files, {
    sched::set_preemptions(0);
    sched::set_delays(0);
    let conf = choose_in("confirmations", 1, if T { 6 } else { 4 });
    // blocks in the files
    let filed = choose("filed", if T { 8 } else { 6 });
    let kept = (filed + 1).saturating_sub(conf);
    let mut c = Chain::new();
    grow(&mut c, filed, 100);
    // the node may have replaced some of the blocks left out
    let lost = choose("replaced", (filed - kept).min(2) + 1);
    let mut now = prefix(&c, filed - lost);
    let mut more = choose_in("new", if lost > 0 { 1 } else { 0 }, 2);
    if filed + more < conf {
        // a chain at least as long as the number of confirmations
        more = conf - filed;
    }
    grow(&mut now, lost + more, if lost > 0 { 500 } else { 100 });
    fs::mkdir(DIR);
    if filed > 0 {
        file("blk00000.dat", &c.blocks.iter().collect::<Vec<_>>(), 5);
    }
    from_files(conf, 1, 2, kept, now, &c);
});
// Block files in any shape, and the settings of the start.
harness!(c23_shapes, {
    sched::set_preemptions(0);
    let threads = choose_in("threads", 1, if T { 3 } else { 2 });
    sched::set_delays(if threads == 1 { 1 } else { 0 });
    let conf = 2;
    let (filed, kept) = (4, 3);
    let mut c = Chain::new();
    grow(&mut c, filed, 100);
    let mut now = prefix(&c, filed);
    grow(&mut now, 1, 100);
    fs::mkdir(DIR);
    // a stale block, and the blocks in an order that is not theirs
    let mut stale = prefix(&c, choose("stale after", 3));
    grow(&mut stale, 1, 700);
    let mut l: Vec<&Blk> = c.blocks.iter().collect();
    l.push(stale.blocks.last().unwrap());
    if choose_bool("order") {
        l.reverse();
    }
    let k = choose_in("split", 0, if T { 5 } else { 2 });
    file("blk00000.dat", &l[..k], 5);
    file("blk00001.dat", &l[k..], 90);
    from_files(conf, threads, choose_in("batch", 1, 3), kept, now, &c);
});
static mut FILED: Option<Chain> = None;
// Started again and again, with the node going on in between.
harness!(c23_restart, {
    sched::set_preemptions(0);
    sched::set_delays(0);
    let conf = choose_in("confirmations", 1, if T { 4 } else { 3 });
    let mut c = Chain::new();
    grow(&mut c, conf - 1 + choose("kept", 2), 100);
    fs::mkdir(DIR);
    file("blk00000.dat", &c.blocks.iter().collect::<Vec<_>>(), 0);
    settings(conf, 1, 2);
    start(c.clone());
    let n = choose_in("starts", 2, 3);
    for k in 0..n {
        pool();
        run(conf, |a| answers(a, unsafe { DEPTH }));
        // meanwhile
        let lost = choose(["lost", "lost again", "lost more"][k], conf.min(c.blocks.len() + 1));
        c = prefix(&c, c.blocks.len() - lost);
        grow(&mut c, lost + choose_in(["new", "newer", "newest"][k], if lost > 0 { 1 } else { 0 }, 2), 1000 * (k as u32 + 1));
        switch(c.clone());
        if choose_bool(["files gone", "files gone now", "files gone then"][k]) {
            fs::remove("/vfs/blocks/blk00000.dat");
        }
        // what was abandoned below the saved height cannot be undone: not in question here
    }
    reach("restarted");
});
// The service keeps following the node and saves what it has learned.
harness!(c23_later, {
    sched::set_preemptions(0);
    sched::set_delays(if T { 3 } else { 1 });
    let conf = choose_in("confirmations", 1, 3);
    let mut c = Chain::new();
    grow(&mut c, conf, 100);
    prefix(&c, 1).store().to_file(STORE, &app::logger::Logger::new());
    settings(conf, 1, 100);
    start(c);
    run(conf, |a| {
        let conf = unsafe { DEPTH };
        answers(a, conf);
        for k in 0..choose_in("rounds", 1, 2) {
            let mut c = node().chain.clone();
            let lost = choose(["lost", "lost again"][k], conf);
            c = prefix(&c, c.blocks.len() - lost);
            grow(&mut c, lost + 1, 1000 * (k as u32 + 1));
            switch(c.clone());
            pool();
            let want = c.blocks.len() + 1 - conf;
            // updates, then saves
            let mut done = false;
            for _ in 0..12 {
                sched::sleep();
                if saved().map(|s| s.height()) == Some(want) {
                    done = true;
                    break;
                }
            }
            check(done, "new blocks reach the saved index");
            check_index(&saved().unwrap(), &c.blocks[..want], &owners(), "the saved index is that of the node's chain");
            answers(a, conf);
        }
        reach("followed");
    });
});
// Arbitrary amounts.
harness!(c23_values, {
    sched::set_preemptions(0);
    sched::set_delays(0);
    let conf = choose_in("confirmations", 1, 2);
    let o = owners();
    let v = any_u64("amount");
    assume(v <= 2_100_000_000_000_000);
    let w = choose("other", 3) as u64;
    let mut c = Chain::new();
    c.push(1, vec![coinbase(1, vec![pay(&o[0], v), pay(&o[1], 7)])]);
    let p = c.blocks[0].txs[0].id;
    c.push(2, vec![coinbase(2, vec![pay(&o[2], w)]), Tx::new(1, vec![(p, choose("spent", 2) as u32)], vec![pay(&o[2], 3)])]);
    fs::mkdir(DIR);
    file("blk00000.dat", &[&c.blocks[1], &c.blocks[0]], 0);
    settings(conf, 1, 1);
    start(c.clone());
    unsafe { FILED = Some(prefix(&c, 3 - conf)) };
    run(conf, |_| {
        let s = saved().unwrap();
        check_index(&s, unsafe { &FILED.as_ref().unwrap().blocks }, &owners(), "the saved index is that of the block files");
    });
    reach("built");
});
// More blocks, confirmations, threads and larger batches.
harness!(c23_long, {
    sched::set_preemptions(0);
    sched::set_delays(0);
    let conf = [1usize, 6, 20][choose("confirmations", 3)];
    let filed = 30;
    let kept = filed + 1 - conf;
    let mut c = Chain::new();
    grow(&mut c, filed, 100);
    let lost = [0, conf - 1][choose("replaced", 2)];
    let mut now = prefix(&c, filed - lost);
    grow(&mut now, lost + [1, 25][choose("new", 2)], if lost > 0 { 500 } else { 100 });
    fs::mkdir(DIR);
    let l: Vec<&Blk> = c.blocks.iter().rev().collect();
    for k in 0..5 {
        file(&format!("blk{:05}.dat", 7 * k), &l[6 * k..6 * k + 6], 3 * k);
    }
    from_files(conf, [1usize, 4][choose("threads", 2)], [1usize, 7, 10, 1000][choose("batch", 4)], kept, now, &c);
});
