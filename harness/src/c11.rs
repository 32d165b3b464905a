//! Queries with N confirmations.
use crate::model::*;
use crate::node::*;
use vrt::*;

pub const TABLE: &[(&str, fn())] = &[("c11_depths", c11_depths), ("c11_pool", c11_pool), ("c11_deep", c11_deep), ("c11_far", c11_far)];
const T: bool = cfg!(feature = "thorough");

/// A block over the ledger: a coinbase and up to `spends` transactions.
pub fn block(c: &mut Chain, l: &mut Ledger, owners: &[Addr], spends: usize, value: &mut u64) {
    let h = c.blocks.len() as u32;
    let mut next = || {
        *value *= 2;
        *value
    };
    let cb = coinbase(h, vec![pay(&owners[0], next())]);
    l.tx(&cb);
    let mut txs = vec![cb];
    for j in 0..spends as u32 {
        let k = choose("spend", l.coins.len() + 1);
        if k == l.coins.len() {
            break;
        }
        let t = Tx::new(100 + 10 * h + j, vec![l.coins[k].op], vec![pay(&owners[1], next())]);
        l.tx(&t);
        txs.push(t);
    }
    c.push(h, txs);
}

// Every placement of the spends over the base index and the blocks above it.
harness!(c11_depths, {
    let owners = [addr(0, 1), addr(5, 1)];
    let (mut c, mut l, mut v) = (Chain::new(), Ledger::new(), 1);
    let conf = choose_in("confirmations", 1, 3);
    let base = 1;
    let n = base + conf - 1 + choose("more", if T { 3 } else { 2 });
    for h in 0..n {
        block(&mut c, &mut l, &owners, if h == 0 { 0 } else if n < 4 || T { 3 } else { 2 }, &mut v);
    }
    start(c.clone());
    let s = state(prefix(&c, base).store(), conf);
    let _ = block_on(s.update());
    check_answers(&s, &c, &[], &owners, "a query with c confirmations answers from the blocks with at least c confirmations");
    reach(["", "one", "two", "three"][conf]);
});

// With unconfirmed transactions on top.
harness!(c11_pool, {
    let owners = [addr(0, 1), addr(5, 1), addr(0, 3)];
    let (mut c, mut l, mut v) = (Chain::new(), Ledger::new(), 1);
    let conf = choose_in("confirmations", 1, if T { 3 } else { 2 });
    for h in 0..conf + 1 {
        block(&mut c, &mut l, &owners, if h == 0 { 0 } else { 1 }, &mut v);
    }
    let mut pool: Vec<Tx> = Vec::new();
    for k in 0..2u32 {
        let mut ops: Vec<(Id, u32)> = l.coins.iter().map(|x| x.op).collect();
        if let Some(t) = pool.last() {
            ops.push((t.id, 0));
        }
        let i = choose("pool spend", ops.len());
        pool.push(Tx::new(200 + k, vec![ops[i]], vec![pay(&owners[2], 1 << (40 + k))]));
    }
    start(c.clone());
    node().pool = pool.clone();
    let s = state(prefix(&c, 1).store(), conf);
    let _ = block_on(s.update());
    check_answers(&s, &c, &pool, &owners, "unconfirmed transactions count at zero confirmations only");
    reach("pool");
});

// More confirmations, two spends per block, a chain of a fixed shape.
harness!(c11_deep, {
    let owners = [addr(0, 1), addr(5, 1)];
    let (mut c, mut l) = (Chain::new(), Ledger::new());
    let conf = choose_in("confirmations", 1, if T { 8 } else { 6 });
    let n = 1 + conf + choose("more", 3);
    let gap = choose_in("age of what is spent", 0, conf);
    for h in 0..n as u32 {
        let mut txs = vec![coinbase(h, vec![pay(&owners[0], 1 << (2 * h)), pay(&owners[1], 2 << (2 * h))])];
        l.tx(&txs[0]);
        if h as usize >= gap {
            let src = if gap == 0 { txs[0].id } else { c.blocks[h as usize - gap].txs[0].id };
            let t = Tx::new(100 + h, vec![(src, 0)], vec![pay(&owners[1], 1 << (2 * h))]);
            l.tx(&t);
            txs.push(t);
        }
        c.push(h, txs);
    }
    start(c.clone());
    let s = state(prefix(&c, 1).store(), conf);
    let _ = block_on(s.update());
    check_answers(&s, &c, &[], &owners, "a query with c confirmations answers from the blocks with at least c confirmations");
    reach("deep");
});

// A configured maximum that no small number holds.
harness!(c11_far, {
    let owners = [addr(0, 1), addr(5, 1)];
    let conf = [40usize, 260][choose("confirmations", 2)];
    let n = conf + choose("more", 2);
    let mut c = Chain::new();
    for h in 0..n as u32 {
        let mut txs = vec![coinbase(h, if h % 16 == 0 { vec![pay(&owners[0], 1 + h as u64)] } else { vec![] })];
        if h >= 32 && h % 16 == 3 {
            txs.push(Tx::new(1000 + h, vec![(c.blocks[h as usize - 35].txs[0].id, 0)], vec![pay(&owners[1], 5000 + h as u64)]));
        }
        c.push(h, txs);
    }
    start(c.clone());
    let s = state(prefix(&c, 1).store(), conf);
    let _ = block_on(s.update());
    for d in [0, 1, 2, 16, 17, 31, 32, 33, 39, 40, 127, 128, 129, 254, 255, 256, 257, 259, 260] {
        if d <= conf {
            check_depth(&s, &c, &[], &owners, d, "a query with c confirmations answers from the blocks with at least c confirmations");
        }
    }
    reach("far");
});
