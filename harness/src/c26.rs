//! Inconsistent chain data is refused.
use crate::model::*;
use app::logger::Logger;
use app::store::IndexedStore;
use vrt::*;

pub const TABLE: &[(&str, fn())] = &[("c26_one", c26_one), ("c26_build", c26_build), ("c26_schedules", c26_schedules), ("c26_long", c26_long)];
const T: bool = cfg!(feature = "thorough");

fn base(owners: &[Addr]) -> Chain {
    let mut c = Chain::new();
    c.push(0, vec![coinbase(0, vec![pay(&owners[0], 1), pay(&owners[1], 2), Out { value: 4, script: vec![0x51] }])]);
    let a = c.blocks[0].txs[0].id;
    c.push(1, vec![coinbase(1, vec![pay(&owners[0], 8)]), Tx::new(2, vec![(a, 0)], vec![pay(&owners[0], 1)])]);
    c
}
/// An outpoint that is not unspent: spent before, never created, or arbitrary.
fn missing(l: &Ledger, c: &Chain) -> (Id, u32) {
    let op = match choose("missing", 4) {
        0 => (c.blocks[0].txs[0].id, 0),
        1 => (c.blocks[1].txs[1].id, 1 + any_u32("number") % 1000),
        2 => (any_array("transaction"), any_u32("number")),
        _ => (c.blocks[0].txs[0].id, any_u32("number")),
    };
    assume(!(eq(&op.0, &NULL.0) && op.1 == NULL.1));
    for x in &l.coins {
        assume(!(eq(&op.0, &x.op.0) & (op.1 == x.op.1)));
    }
    op
}
/// A block over `c` that must be refused.
fn bad(c: &Chain, owners: &[Addr]) -> Blk {
    let l = Ledger::of(&c.blocks);
    let good = c.blocks[1].txs[1].id;
    let a = c.blocks[0].txs[0].id;
    let t = |salt: u32, ins: Vec<(Id, u32)>| Tx::new(salt, ins, vec![pay(&owners[1], 32)]);
    let cb = coinbase(30, vec![]);
    match choose("defect", 7) {
        0 => {
            // not linked to the tip
            let prev: Id = any_array("previous block");
            assume(!eq(&prev, &c.tip()));
            Blk::new(prev, 9, vec![cb])
        }
        1 => Blk::new(c.tip(), 9, vec![cb, t(31, vec![missing(&l, c)])]),
        2 => Blk::new(c.tip(), 9, vec![cb, t(31, vec![(good, 0), missing(&l, c)])]),
        3 => Blk::new(c.tip(), 9, vec![cb, t(31, vec![(good, 0)]), t(32, vec![(a, 1)]), t(33, vec![(good, 0)])]),
        4 => Blk::new(c.tip(), 9, vec![cb, t(31, vec![(a, 2), (a, 1), (a, 2)])]),
        5 => {
            // spends an output created further down
            let y = t(32, vec![(good, 0)]);
            Blk::new(c.tip(), 9, vec![cb, t(31, vec![(y.id, 0)]), y])
        }
        _ => {
            // an output of the block, spent twice in it
            let x = t(31, vec![(good, 0)]);
            let x0 = (x.id, 0);
            Blk::new(c.tip(), 9, vec![cb, x, t(32, vec![x0]), t(33, vec![x0])])
        }
    }
}

// One block at a time, on an index built here or loaded from a file.
harness!(c26_one, {
    let owners = [addr(0, 1), addr(5, 1)];
    let c = base(&owners);
    let mut s = c.store();
    if choose_bool("loaded") {
        s.to_file("/vfs/store", &Logger::new());
        s = IndexedStore::from_file("/vfs/store", &Logger::new()).unwrap();
        reach("loaded");
    }
    let b = bad(&c, &owners);
    check(catch(|| s.add_block(&b.app(2))).is_err(), "an inconsistent block was absorbed");
    reach("refused");
});

fn build(preempt: usize) {
    sched::set_preemptions(preempt);
    let owners = [addr(0, 1), addr(5, 1)];
    let mut c = base(&owners);
    let b = bad(&c, &owners);
    c.blocks.push(b);
    if choose_bool("another block follows") {
        c.push(10, vec![coinbase(40, vec![])]);
    }
    let blocks = c.app();
    let threads = choose_in("threads", 1, 3);
    let batch = choose_in("batch", 1, 4);
    let r = catch(move || IndexedStore::from_blocks(blocks, threads, batch, Logger::new()));
    check(r.is_err(), "a build over an inconsistent block went on without complaint");
    reach(if threads > 1 { "parallel" } else { "sequential" });
}
harness!(c26_build, { build(0) });
harness!(c26_schedules, { build(if T { 3 } else { 1 }) });

// The defect is anywhere in a longer chain.
harness!(c26_long, {
    sched::set_preemptions(0);
    sched::set_delays(if T { 1 } else { 0 });
    let owners = [addr(0, 1), addr(5, 1)];
    let n = 14;
    let at = choose_in("defect at", 1, n - 1);
    let kind = choose("defect", 5);
    let mut c = Chain::new();
    for h in 0..n {
        let mut txs = vec![coinbase(h as u32, vec![pay(&owners[0], 1), pay(&owners[1], 2)])];
        if h > 0 {
            txs.push(Tx::new(100 + h as u32, vec![(c.blocks[h - 1].txs[0].id, 0)], vec![pay(&owners[1], 5)]));
        }
        let mut prev = c.tip();
        if h == at {
            let old = c.blocks[at / 2].txs[0].id;
            match kind {
                // follows an older block
                0 => prev = if at > 1 { c.blocks[at - 2].id } else { [0; 32] },
                // takes an output that an earlier block took
                1 => txs.push(Tx::new(300, vec![(if at > 1 { c.blocks[at / 2 - (at == 2) as usize].txs[0].id } else { c.blocks[0].txs[0].id }, 0)], vec![pay(&owners[1], 5)])),
                2 => txs.push(Tx::new(300, vec![(old, 2)], vec![pay(&owners[1], 5)])),
                // twice in the block, far apart
                3 => {
                    txs.push(Tx::new(300, vec![(old, 1)], vec![pay(&owners[1], 5)]));
                    let mut last = txs[2].id;
                    for k in 0..20 {
                        let t = Tx::new(310 + k, vec![(last, 0)], vec![pay(&owners[1], 5)]);
                        last = t.id;
                        txs.push(t);
                    }
                    txs.push(Tx::new(350, vec![(last, 0), (old, 1)], vec![]));
                }
                // the last one of many inputs
                _ => {
                    let mut ins: Vec<(Id, u32)> = (0..at).map(|k| (c.blocks[k].txs[0].id, 1)).collect();
                    ins.push(([0x44; 32], 0));
                    txs.push(Tx::new(300, ins, vec![]));
                }
            }
        }
        let b = Blk::new(prev, h as u32, txs);
        c.blocks.push(b);
    }
    let blocks = c.app();
    let threads = [1usize, 2, 4][choose("threads", 3)];
    let batch = [1usize, 3, 5, 100][choose("batch", 4)];
    let r = catch(move || IndexedStore::from_blocks(blocks, threads, batch, Logger::new()));
    check(r.is_err(), "a build over an inconsistent block went on without complaint");
    reach("refused");
});
