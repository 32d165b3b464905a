//! Saving and loading the index.
use crate::model::*;
use app::logger::Logger;
use app::store::{IndexedStore, ReadonlyTransactionStoreBackendTrait, TransactionStoreBackendTrait};
use app::transaction_output::TransactionOutput;
use vrt::*;

pub const TABLE: &[(&str, fn())] = &[("c09_content", c09_content), ("c09_history", c09_history), ("c09_truncated", c09_truncated), ("c09_next", c09_next), ("c09_many", c09_many), ("c09_rewrite", c09_rewrite), ("c09_outputs", c09_outputs), ("c09_blocks", c09_blocks)];
const T: bool = cfg!(feature = "thorough");
const FILE: &str = "/vfs/store";

fn any_script() -> Vec<u8> {
    let mut s = Addr { kind: if choose_bool("length") { 5 } else { 0 }, hash: any_array("script hash") }.script();
    s[0] = any_u8("opcode");
    s
}
fn load() -> IndexedStore {
    match IndexedStore::from_file(FILE, &Logger::new()) {
        Some(s) => s,
        None => {
            check(false, "the saved file is loaded");
            stop()
        }
    }
}
fn same_headers(a: &IndexedStore, b: &IndexedStore) {
    check(a.height() == b.height() && a.last_block_hash() == b.last_block_hash(), "height and tip survive");
    for (x, y) in a.block_headers().iter().zip(b.block_headers()) {
        check(x.hash == y.hash && x.previous_block_hash == y.previous_block_hash, "block ids survive");
    }
}

// Outputs with arbitrary scripts and amounts.
harness!(c09_content, {
    unsafe { MAP_ORDER = choose("order", 2) as u8 };
    let mut c = Chain::new();
    let cb = coinbase(1, vec![Out { value: any_u64("amount"), script: any_script() }, Out { value: any_u64("amount"), script: any_script() }]);
    c.push(0, vec![cb.clone()]);
    let s = c.store();
    s.to_file(FILE, &Logger::new());
    let r = load();
    same_headers(&s, &r);
    for k in 0..2 {
        let t = TransactionOutput::new(cb.id, k);
        check(s.backend().has_transaction_output(&t) == r.backend().has_transaction_output(&t), "every unspent output survives, no other appears");
    }
    let q = Addr { kind: if choose_bool("kind") { 5 } else { 0 }, hash: any_array("query") };
    let l = Ledger::of(&c.blocks);
    l.check_outputs(&q, &listed(r.backend(), &q.app()), "owners and values survive");
    check(!r.backend().has_transaction_output(&TransactionOutput::new(cb.id, 2)), "nothing appears");
    reach("loaded");
});

fn history(n: u32, owners: &[Addr]) -> Chain {
    let mut c = Chain::new();
    let mut l = Ledger::new();
    for h in 0..n {
        let cb = coinbase(h, vec![pay(&owners[choose("owner", owners.len())], 1 << (4 * h)), Out { value: 9, script: vec![0x51] }]);
        l.tx(&cb);
        let mut txs = vec![cb];
        let k = choose("spend", l.coins.len() + 1);
        if k < l.coins.len() {
            let t = Tx::new(100 + h, vec![l.coins[k].op], vec![pay(&owners[1], 2 << (4 * h))]);
            l.tx(&t);
            txs.push(t);
        }
        c.push(h, txs);
    }
    c
}

// Whole histories, saved and loaded after every block.
harness!(c09_history, {
    let owners = [addr(0, 1), addr(5, 1)];
    let n = choose_in("blocks", 0, 3) as u32;
    let c = history(n, &owners);
    let s = c.store();
    s.to_file(FILE, &Logger::new());
    let r = load();
    check_index(&r, &c.blocks, &owners, "the loaded index is the saved one");
    // and once more
    r.to_file(FILE, &Logger::new());
    check_index(&load(), &c.blocks, &owners, "the index survives a second save");
    reach(if n == 0 { "empty" } else { "loaded" });
});

// The loaded index accepts and refuses as the saved one would.
harness!(c09_next, {
    let owners = [addr(0, 1), addr(5, 1)];
    let mut c = history(2, &owners);
    let mut s = c.store();
    s.to_file(FILE, &Logger::new());
    let mut r = load();
    let mut ops: Vec<(Id, u32)> = vec![([9; 32], 0)];
    for b in &c.blocks {
        for t in &b.txs {
            for k in 0..t.outs.len() {
                ops.push((t.id, k as u32));
            }
        }
    }
    let mut b = Blk::new(c.tip(), 50, vec![coinbase(60, vec![]), Tx::new(51, vec![ops[choose("spends", ops.len())]], vec![pay(&owners[0], 1 << 20)])]);
    if choose_bool("unlinked") {
        b = Blk::new(c.blocks[0].id, 50, b.txs.clone());
    }
    let x = catch(|| s.add_block(&b.app(2)));
    let y = catch(|| r.add_block(&b.app(2)));
    check(x.is_ok() == y.is_ok(), "accepted by one, refused by the other");
    if x.is_ok() {
        c.blocks.push(b);
        check_index(&r, &c.blocks, &owners, "the loaded index continues like the saved one");
        reach("accepted");
    } else {
        reach("refused");
    }
});

// A file cut short anywhere is not accepted.
harness!(c09_truncated, {
    let mut c = Chain::new();
    let n = choose_in("blocks", 1, 2) as u32;
    for h in 0..n {
        let kind = choose("kind", 3);
        let o = if kind == 2 { Out { value: any_u64("amount"), script: vec![0x51] } } else { Out { value: any_u64("amount"), script: Addr { kind: kind as u8 * 5, hash: any_array("hash") }.script() } };
        c.push(h, vec![coinbase(h, vec![o])]);
    }
    let s = c.store();
    s.to_file(FILE, &Logger::new());
    let mut b = fs::get(FILE).unwrap();
    b.truncate(choose("kept", b.len()));
    fs::put(FILE, b);
    match catch(|| IndexedStore::from_file(FILE, &Logger::new())) {
        Ok(Some(_)) => check(false, "a file cut short was accepted as an index"),
        _ => reach("refused"),
    }
});

// More blocks and outputs than one byte counts.
harness!(c09_many, {
    let owners = [addr(0, 1), addr(5, 1)];
    let mut c = Chain::new();
    for h in 0..258u32 {
        c.push(h, vec![coinbase(h, if h == 0 { (0..270).map(|k| if k % 2 == 0 { pay(&owners[0], k as u64) } else { Out { value: 1 << 33, script: vec![0x51] } }).collect() } else { vec![] })]);
    }
    let s = c.store();
    s.to_file(FILE, &Logger::new());
    let r = load();
    same_headers(&s, &r);
    Ledger::of(&c.blocks).check_outputs(&owners[0], &listed(r.backend(), &owners[0].app()), "every output of a large index survives");
    let t = TransactionOutput::new(c.blocks[0].txs[0].id, 269);
    check(r.backend().has_transaction_output(&t), "outputs without owner survive");
    reach("loaded");
});

// Saving over an older, longer or shorter file.
harness!(c09_rewrite, {
    let owners = [addr(0, 1), addr(5, 1)];
    let a = history(choose_in("older", 1, 2) as u32, &owners);
    let b = history(choose_in("newer", 0, 2) as u32, &owners);
    a.store().to_file(FILE, &Logger::new());
    b.store().to_file(FILE, &Logger::new());
    check_index(&load(), &b.blocks, &owners, "the file holds the index saved last");
    reach("rewritten");
});

// More outputs than two bytes count.
harness!(c09_outputs, {
    let a = addr(5, 1);
    let n = 65_600u32;
    let mut c = Chain::new();
    let outs = (0..n).map(|k| if k % 8_000 == 7 { pay(&a, k as u64) } else { Out { value: k as u64, script: vec![0x51] } }).collect();
    c.push(0, vec![coinbase(0, outs)]);
    let id = c.blocks[0].txs[0].id;
    let s = c.store();
    s.to_file(FILE, &Logger::new());
    drop(s);
    let r = load();
    check(r.height() == 1 && r.last_block_hash() == Some(c.tip()), "height and tip survive");
    let mut got = listed(r.backend(), &a.app());
    got.sort_by_key(|x| x.1);
    let all: Vec<_> = (0..n).filter(|k| k % 8_000 == 7).map(|k| (id, k, k as u64)).collect();
    check(got == all, "every output of a large index survives");
    for k in 0..n {
        check(r.backend().has_transaction_output(&TransactionOutput::new(id, k)), "every output of a large index survives");
    }
    reach("loaded");
});

// More blocks than two bytes count.
harness!(c09_blocks, {
    let n = 65_600u32;
    let mut s = IndexedStore::large();
    let mut prev = [0u8; 32];
    let mut buffer = vec![0u8; 81];
    for h in 0..n {
        buffer[4..36].copy_from_slice(&prev);
        buffer[36..40].copy_from_slice(&h.to_le_bytes());
        let b = app::block::Block::new(&buffer, h as usize);
        prev = app::block::BlockTrait::hash(&b);
        s.add_block(&b);
    }
    s.to_file(FILE, &Logger::new());
    let r = load();
    check(r.height() == n as usize, "height and tip survive");
    same_headers(&s, &r);
    reach("loaded");
});
