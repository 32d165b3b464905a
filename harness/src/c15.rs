//! Saves concurrent with updates.
use crate::model::*;
use crate::node::*;
use app::logger::Logger;
use app::store::IndexedStore;
use vrt::*;

pub const TABLE: &[(&str, fn())] = &[("c15_save", c15_save), ("c15_saver", c15_saver), ("c15_reorg", c15_reorg)];
const T: bool = cfg!(feature = "thorough");
const FILE: &str = "/vfs/store";

fn grow(c: &mut Chain, salt: u32, o: &[Addr]) {
    let cb = coinbase(salt, vec![pay(&o[0], 1 << (2 * (salt % 20))), pay(&o[1], 2 << (2 * (salt % 20)))]);
    let mut txs = vec![cb];
    if let Some(b) = c.blocks.last() {
        txs.push(Tx::new(1000 + salt, vec![(b.txs[0].id, 0)], vec![pay(&o[1], 1 << (2 * (salt % 20)))]));
    }
    c.push(salt, txs);
}
fn done<T>(h: tokio::task::JoinHandle<T>) {
    check(block_on(h).is_ok(), "an update or a save failed");
}
/// The file is the permanent index of one moment: exactly the first blocks of the chain.
fn check_file(chain: &Chain, lo: usize, o: &[Addr]) {
    match catch(|| IndexedStore::from_file(FILE, &Logger::new())) {
        Ok(Some(f)) => {
            let h = f.height();
            check(h >= lo && h <= chain.blocks.len(), "the saved index is one the service had");
            check_index(&f, &chain.blocks[..h], o, "block ids and outputs of the saved index agree");
            observe_u64("saved height", h as u64);
            if h > lo {
                reach("newer");
            }
        }
        _ => check(false, "what was saved is a complete index"),
    }
}
fn saves(reorg: bool) {
    let o = [addr(0, 1), addr(5, 1)];
    let conf = choose_in("confirmations", if reorg { 2 } else { 1 }, if T { 3 } else { 2 });
    let mut c = Chain::new();
    for h in 0..conf as u32 {
        grow(&mut c, h, &o);
    }
    start(c.clone());
    let s = state(prefix(&c, 1).store(), conf);
    let _ = block_on(s.update());
    // two updates, each finding a new block, while one save runs
    let mut chains = Vec::new();
    for k in 0..2u32 {
        if reorg && k == 1 {
            c.blocks.pop();
            grow(&mut c, 40, &o);
        }
        grow(&mut c, 20 + k, &o);
        chains.push(c.clone());
    }
    let s2 = s.clone();
    let u = tokio::spawn(async move {
        for c in chains {
            switch(c);
            let _ = s2.update().await;
        }
    });
    let s3 = s.clone();
    let w = tokio::spawn(async move { s3.write(FILE).await });
    done(w);
    // blocks beyond the reach of reorganisations are the same in all chains
    check_file(&c, 1, &o);
    done(u);
    check_answers(&s, &c, &[], &o, "after the updates every answer is that of the node's chain");
    let p = permanent(&s);
    let h = p.height();
    if h < c.blocks.len() + 1 - conf {
        reach("left for later");
    }
    check_index(&p, &c.blocks[..h], &o, "the permanent index is a prefix of the chain");
    // the next update with a new block moves what was left
    grow(&mut c, 60, &o);
    switch(c.clone());
    let _ = block_on(s.update());
    check_answers(&s, &c, &[], &o, "after the updates every answer is that of the node's chain");
    check_index(&permanent(&s), &c.blocks[..c.blocks.len() + 1 - conf], &o, "blocks left by one update are moved by a later one");
    reach("saved");
}
harness!(c15_save, {
    sched::set_preemptions(if T { 4 } else { 2 });
    saves(false)
});
harness!(c15_reorg, {
    sched::set_preemptions(if T { 3 } else { 2 });
    saves(true)
});

// The updater tells the saver, as the program does.
harness!(c15_saver, {
    sched::set_preemptions(if T { 2 } else { 1 });
    let o = [addr(0, 1), addr(5, 1)];
    let conf = choose_in("confirmations", 1, 2);
    let mut c = Chain::new();
    for h in 0..conf as u32 {
        grow(&mut c, h, &o);
    }
    start(c.clone());
    let s = state(prefix(&c, 1).store(), conf);
    let _ = block_on(s.update());
    let mut chains = Vec::new();
    for k in 0..3u32 {
        if choose_bool("block") {
            grow(&mut c, 20 + k, &o);
        }
        chains.push(c.clone());
    }
    let (tx, mut rx) = tokio::sync::mpsc::channel(256);
    let s2 = s.clone();
    let u = tokio::spawn(async move {
        for c in chains {
            switch(c);
            if s2.update().await {
                check(tx.send(()).await.is_ok(), "the saver is alive");
            }
        }
    });
    let s3 = s.clone();
    let all = c.clone();
    let w = tokio::spawn(async move {
        while rx.recv().await.is_some() {
            s3.write(FILE).await;
            check_file(&all, 2, &o);
        }
    });
    done(u);
    done(w);
    check_answers(&s, &c, &[], &o, "after the updates every answer is that of the node's chain");
    // the last save comes after the last change of the permanent index
    let h = permanent(&s).height();
    if h > 1 {
        check_file(&c, h, &o);
        reach("up to date");
    }
});
