//! A build by parallel workers equals the sequential one.
use crate::model::*;
use app::logger::Logger;
use app::store::{IndexedStore, TransactionStoreBackendTrait};
use app::transaction_output::TransactionOutput;
use vrt::*;

pub const TABLE: &[(&str, fn())] = &[("c08_shapes", c08_shapes), ("c08_schedules", c08_schedules), ("c08_repeat", c08_repeat), ("c08_repeat_unspent", c08_repeat_unspent), ("c08_long", c08_long), ("c08_thousand", c08_thousand)];
const T: bool = cfg!(feature = "thorough");

/// Every block spends one or two of the outputs that exist, within the block or from an earlier one.
fn chain(n: usize, owners: &[Addr]) -> Chain {
    let mut c = Chain::new();
    let mut l = Ledger::new();
    for h in 0..n as u32 {
        let cb = coinbase(h, vec![pay(&owners[h as usize % 2], 1 << (3 * h))]);
        l.tx(&cb);
        let mut txs = vec![cb];
        for j in 0..2u32 {
            // spend any coin, or nothing
            let k = choose("spend", l.coins.len() + 1);
            if k == l.coins.len() {
                break;
            }
            let mut outs = vec![pay(&owners[j as usize], 2 << (3 * h + j))];
            if j == 1 {
                outs.insert(0, Out { value: 5, script: vec![0x51] });
            }
            let t = Tx::new(100 + 10 * h + j, vec![l.coins[k].op], outs);
            l.tx(&t);
            txs.push(t);
        }
        c.push(h, txs);
    }
    c
}

// Every small history, threads and batch sizes; the workers run one after the other.
harness!(c08_shapes, {
    sched::set_preemptions(0);
    let owners = [addr(0, 1), addr(5, 1)];
    let c = chain(3, &owners);
    let threads = choose_in("threads", 1, 3);
    let batch = choose_in("batch", 1, 4);
    let s = IndexedStore::from_blocks(c.app(), threads, batch, Logger::new());
    check_index(&s, &c.blocks, &owners, "the build equals the ledger of the chain");
    reach(if threads > 1 { "parallel" } else { "sequential" });
});

// Every scheduling of the workers, for chains in which each block needs the ones before it.
harness!(c08_schedules, {
    sched::set_preemptions(if T { 4 } else { 2 });
    let owners = [addr(0, 1), addr(5, 1)];
    let mut c = Chain::new();
    let n = choose_in("blocks", 1, if T { 4 } else { 3 });
    let mut last: Option<(Id, u32)> = None;
    for h in 0..n as u32 {
        let mut txs = vec![coinbase(h, vec![pay(&owners[0], 1 << h)])];
        let next = (txs[0].id, 0);
        if let Some(op) = last {
            let t = Tx::new(50 + h, vec![op], vec![pay(&owners[1], 16 << h), Out { value: 1, script: vec![] }]);
            txs.push(t);
        }
        last = Some(next);
        c.push(h, txs);
    }
    let threads = choose_in("threads", 2, 3);
    let batch = choose_in("batch", 1, 2);
    let s = IndexedStore::from_blocks(c.app(), threads, batch, Logger::new());
    check_index(&s, &c.blocks, &owners, "the build equals the ledger of the chain under every schedule");
    reach("built");
});

// A transaction id that returns after its outputs were spent.
harness!(c08_repeat, {
    sched::set_preemptions(0);
    let owners = [addr(0, 1), addr(5, 1)];
    let x = coinbase(7, vec![pay(&owners[0], 1)]);
    let mut c = Chain::new();
    let mut l = Ledger::new();
    for h in 0..5u32 {
        let mut txs = vec![if !l.has(&(x.id, 0)) && choose_bool("again") { x.clone() } else { coinbase(20 + h, vec![]) }];
        for t in &txs {
            l.tx(t);
        }
        if l.has(&(x.id, 0)) && choose_bool("spend") {
            let t = Tx::new(30 + h, vec![(x.id, 0)], vec![pay(&owners[1], 2 << h)]);
            l.tx(&t);
            txs.push(t);
        }
        c.push(h, txs);
    }
    let s = IndexedStore::from_blocks(c.app(), choose_in("threads", 1, 2), choose_in("batch", 1, 5), Logger::new());
    check_index(&s, &c.blocks, &owners, "the build equals the ledger of the chain");
    reach("built");
});

// A transaction id that returns while its outputs are unspent (as twice in the real chain, before
// the rule against it), spent in the batch in which it returned.
harness!(c08_repeat_unspent, {
    sched::set_preemptions(0);
    let owners = [addr(0, 1), addr(5, 1)];
    let x = coinbase(7, vec![pay(&owners[0], 1)]);
    let mut c = Chain::new();
    c.push(0, vec![x.clone()]);
    c.push(1, vec![coinbase(8, vec![])]);
    c.push(2, vec![x.clone()]);
    c.push(3, vec![coinbase(9, vec![]), Tx::new(10, vec![(x.id, 0)], vec![pay(&owners[1], 2)])]);
    let s = IndexedStore::from_blocks(c.app(), 2, 2, Logger::new());
    check_index(&s, &c.blocks, &owners, "an output recreated and spent within a batch is gone");
});

// Longer chains, larger batches and more workers.
harness!(c08_long, {
    sched::set_preemptions(0);
    sched::set_delays(if T { 2 } else { 1 });
    let owners = [addr(0, 1), addr(5, 1)];
    let n = [24u32, 40][choose("blocks", 2)];
    let gap = [0usize, 1, 2, 7][choose("age of what is spent", 4)];
    let mut c = Chain::new();
    for h in 0..n {
        let mut txs = vec![coinbase(h, vec![pay(&owners[0], 1 + h as u64), pay(&owners[1], 1 << (h + 8)), Out { value: 3, script: vec![0x51] }])];
        if h as usize >= gap {
            // two outputs, the second of which the next transaction takes on
            let src = if gap == 0 { txs[0].id } else { c.blocks[h as usize - gap].txs[0].id };
            let t = Tx::new(100 + h, vec![(src, 0), (src, 2)], vec![pay(&owners[1], 5), pay(&owners[0], 6)]);
            let u = Tx::new(200 + h, vec![(t.id, 1)], vec![pay(&owners[0], 7 + h as u64)]);
            txs.push(t);
            txs.push(u);
        }
        c.push(h, txs);
    }
    let batch = [1usize, 2, 5, 8, 10, 23, 24, 25, 1000][choose("batch", 9)];
    let threads = [1usize, 2, 4, 9][choose("threads", 4)];
    let s = IndexedStore::from_blocks(c.app(), threads, batch, Logger::new());
    check_index(&s, &c.blocks, &owners, "the build equals the ledger of the chain");
    reach("long");
});

// So many blocks that progress is reported more than once, and more than one byte counts.
harness!(c08_thousand, {
    sched::set_preemptions(0);
    sched::set_delays(0);
    const M: &str = "the build equals the ledger of the chain";
    let a = addr(0, 1);
    let n = 1_030u32;
    let mut c = Chain::new();
    for h in 0..n {
        let mut txs = vec![coinbase(h, vec![if h % 103 == 1 { pay(&a, h as u64) } else { Out { value: 3, script: vec![0x51] } }])];
        if h % 103 == 102 {
            txs.push(Tx::new(5000 + h, vec![(c.blocks[h as usize - 101].txs[0].id, 0)], vec![]));
        }
        c.push(h, txs);
    }
    let batch = [1000usize, 999, 10, 256][choose("batch", 4)];
    let threads = [1usize, 3][choose("threads", 2)];
    let s = IndexedStore::from_blocks(c.app(), threads, batch, Logger::new());
    check(s.height() == n as usize && s.last_block_hash() == Some(c.blocks[n as usize - 1].id), M);
    for (h, b) in s.block_headers().iter().zip(&c.blocks) {
        check(h.hash == b.id && h.previous_block_hash == b.prev, M);
    }
    check(listed(s.backend(), &a.app()).is_empty(), M);
    for (h, b) in c.blocks.iter().enumerate() {
        check(s.backend().has_transaction_output(&TransactionOutput::new(b.txs[0].id, 0)) == (h % 103 != 1 || h + 101 >= n as usize), M);
    }
    reach("long");
});
