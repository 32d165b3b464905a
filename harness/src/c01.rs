//! The index equals the reference ledger.
use crate::model::*;
use app::store::{IndexedStore, ReadonlyTransactionStoreBackendTrait};
use vrt::*;

pub const TABLE: &[(&str, fn())] = &[("c01_scripts", c01_scripts), ("c01_history", c01_history), ("c01_dup", c01_dup), ("c01_many", c01_many), ("c01_long", c01_long), ("c01_masses", c01_masses)];
const T: bool = cfg!(feature = "thorough");
const MAX: u64 = 21_000_000 * 100_000_000;

fn amount() -> u64 {
    let v = any_u64("amount");
    assume(v <= MAX);
    v
}
fn any_addr(name: &str) -> Addr {
    let kind = if choose_bool("kind") { 5 } else { 0 };
    Addr { kind, hash: any_array(name) }
}
/// A script whose kind and target are open: 25 or 23 bytes, first byte arbitrary.
fn any_script() -> Vec<u8> {
    let mut s = Addr { kind: if choose_bool("length") { 5 } else { 0 }, hash: any_array("script hash") }.script();
    s[0] = any_u8("opcode");
    s
}
fn ask(store: &IndexedStore, l: &Ledger, q: &Addr) {
    let a = q.app();
    let got = listed(store.backend(), &a);
    l.check_outputs(q, &got, "the outputs listed are the unspent outputs paying the address");
    l.check_balance(q, store.backend().balance(&a), "the balance is the sum of the unspent outputs");
    reach(if got.is_empty() { "none" } else { "some" });
    observe_u64("listed", got.len() as u64);
}

// Output scripts, owners and amounts arbitrary; fixed history: two outputs, one of them spent.
harness!(c01_scripts, {
    let mut store = IndexedStore::large();
    let mut l = Ledger::new();
    let a = coinbase(1, vec![Out { value: amount(), script: any_script() }, Out { value: amount(), script: any_script() }]);
    let b0 = Blk::new([0; 32], 0, vec![a.clone()]);
    let spent = choose("spent", 2) as u32;
    // no valid transaction spends a data-carrier output
    assume(a.outs[spent as usize].script[0] != 0x6a);
    let t = Tx::new(3, vec![(a.id, spent)], vec![Out { value: amount(), script: any_script() }]);
    let b1 = Blk::new(b0.id, 1, vec![coinbase(2, vec![]), t]);
    for (k, b) in [&b0, &b1].into_iter().enumerate() {
        store.add_block(&b.app(k));
        l.block(b);
    }
    // an output that is spent pays nobody's query if the answer is right
    let q = any_addr("query");
    ask(&store, &l, &q);
});

/// One more transaction over the current ledger.
fn grow(l: &Ledger, salt: u32, max_in: usize, owners: &[Addr]) -> Tx {
    let mut ins: Vec<(Id, u32)> = Vec::new();
    // no valid transaction spends a data-carrier output
    let coins: Vec<&Coin> = l.coins.iter().filter(|c| c.script[0] != 0x6a).collect();
    let n = choose("inputs", max_in.min(coins.len()) + 1);
    let mut from = 0;
    for _ in 0..n {
        if from >= coins.len() {
            break;
        }
        let k = from + choose("spend", coins.len() - from);
        ins.push(coins[k].op);
        from = k + 1;
    }
    if ins.is_empty() {
        ins.push(NULL);
    } else if ins.len() > 1 && choose_bool("swap") {
        ins.swap(0, 1);
    }
    let m = choose_in("outputs", 0, 2);
    let mut outs = Vec::new();
    for _ in 0..m {
        let k = choose("owner", owners.len() + 2);
        outs.push(if k < owners.len() {
            pay(&owners[k], 1 << (salt * 2 + outs.len() as u32))
        } else if k == owners.len() {
            Out { value: 0, script: vec![0x6a, 1, 9] }
        } else {
            Out { value: 1 << 40, script: vec![0x51] }
        });
    }
    Tx::with(salt, ins, outs, false)
}

// Every history of a few transactions, spent within and across blocks.
harness!(c01_history, {
    let owners = [addr(0, 1), addr(5, 1)];
    let mut store = IndexedStore::large();
    let mut l = Ledger::new();
    let n = if T { 4 } else { 3 };
    let mut prev = [0; 32];
    let mut txs: Vec<Tx> = Vec::new();
    let mut h = 0;
    for k in 0..n {
        let t = if k == 0 { coinbase(0, vec![pay(&owners[0], 1), pay(&owners[choose("owner", 2)], 2)]) } else { grow(&l, k as u32, 2, &owners) };
        l.tx(&t);
        txs.push(t);
        if k == n - 1 || choose_bool("new block") {
            let b = Blk::new(prev, h as u32, std::mem::take(&mut txs));
            prev = b.id;
            store.add_block(&b.app(h));
            h += 1;
        }
    }
    for q in [owners[0], owners[1], addr(0, 2)] {
        ask(&store, &l, &q);
    }
    check(store.height() == h && store.last_block_hash() == Some(prev), "height and tip");
});

// The same coinbase transaction twice, as happened in the real chain.
harness!(c01_dup, {
    let q = addr(0, 1);
    let mut store = IndexedStore::large();
    let mut l = Ledger::new();
    let c = coinbase(1, vec![pay(&q, amount()), pay(&q, amount())]);
    let mut prev = [0; 32];
    let mut h = 0;
    for k in 0..4u32 {
        let mut txs = vec![if choose_bool("again") { c.clone() } else { coinbase(10 + k, vec![pay(&addr(5, 1), 1)]) }];
        if l.has(&(c.id, 1)) && choose_bool("spend") {
            txs.push(Tx::new(20 + k, vec![(c.id, 1)], vec![pay(&q, 3)]));
        }
        let b = Blk::new(prev, k, txs);
        prev = b.id;
        store.add_block(&b.app(h));
        l.block(&b);
        h += 1;
    }
    ask(&store, &l, &q);
});

// Output numbers beyond one and two bytes.
harness!(c01_many, {
    let q = addr(0, 1);
    let n = [300usize, 65_540][choose("outputs", 2)];
    let at: Vec<usize> = [0, 44, 255, 256, n - 4, n - 1].to_vec();
    let mut outs = Vec::with_capacity(n);
    for k in 0..n {
        outs.push(if at.contains(&k) { pay(&q, amount()) } else { Out { value: 0, script: vec![0x6a] } });
    }
    // there are never more than 21 million coins
    let mut sum = 0;
    for k in &at {
        sum += outs[*k].value;
    }
    assume(sum <= MAX);
    let c = coinbase(1, outs);
    let b0 = Blk::new([0; 32], 0, vec![c.clone()]);
    let k = choose("spend", at.len());
    let b1 = Blk::new(b0.id, 1, vec![coinbase(2, vec![]), Tx::new(3, vec![(c.id, at[k] as u32)], vec![pay(&addr(5, 1), 1)])]);
    let mut store = IndexedStore::large();
    let mut l = Ledger::new();
    store.add_block(&b0.app(0));
    store.add_block(&b1.app(1));
    let at: Vec<(Id, u32)> = at.iter().map(|k| (c.id, *k as u32)).collect();
    for (i, op) in at.iter().enumerate() {
        if i != k {
            l.coins.push(Coin { op: *op, value: c.outs[op.1 as usize].value, script: q.script() });
        }
    }
    ask(&store, &l, &q);
    reach("many");
});

// Longer histories: outputs of every age spent, by several inputs, to both owners.
harness!(c01_long, {
    let owners = [addr(0, 1), addr(5, 1), addr(0, 3)];
    let n = [12usize, 60][choose("blocks", 2)];
    let gap = choose("age of what is spent", 6);
    let mut c = Chain::new();
    for h in 0..n {
        let mut txs = vec![coinbase(h as u32, vec![pay(&owners[h % 3], 1 + h as u64), pay(&owners[0], 2), Out { value: 9, script: vec![0x6a, 1] }, pay(&owners[(h + 1) % 3], 4)])];
        if h >= gap {
            let src = if gap == 0 { txs[0].id } else { c.blocks[h - gap].txs[0].id };
            let t = Tx::new(1000 + h as u32, vec![(src, 3), (src, 0)], vec![pay(&owners[h % 2], 70), pay(&owners[2], 80)]);
            let u = Tx::new(2000 + h as u32, vec![(t.id, 1)], if h % 4 == 0 { vec![] } else { vec![pay(&owners[2], 90)] });
            txs.push(t);
            txs.push(u);
        }
        c.push(h as u32, txs);
    }
    check_index(&c.store(), &c.blocks, &owners, "the index equals the ledger");
    reach("long");
});

// More unspent outputs of one address than two bytes count.
harness!(c01_masses, {
    let q = addr(if choose_bool("kind") { 5 } else { 0 }, 1);
    let n = 132_000usize;
    let mut store = IndexedStore::large();
    let mut outs = Vec::with_capacity(n);
    for k in 0..n {
        outs.push(pay(&q, 3 * k as u64 + 1));
    }
    let c = coinbase(1, outs);
    let gone = [0u32, 9, 65_535, 65_536, 131_072, n as u32 - 1];
    let b0 = Blk::new([0; 32], 0, vec![c.clone()]);
    store.add_block(&b0.app(0));
    let mut total: u64 = c.outs.iter().map(|o| o.value).sum();
    let mut left = n;
    if choose_bool("spend") {
        let t = Tx::new(2, gone.iter().map(|k| (c.id, *k)).collect(), vec![pay(&q, 5)]);
        let b1 = Blk::new(b0.id, 1, vec![coinbase(3, vec![]), t]);
        store.add_block(&b1.app(1));
        for k in gone {
            total -= c.outs[k as usize].value;
        }
        total += 5;
        left -= gone.len() - 1;
    }
    let got = listed(store.backend(), &q.app());
    reach("masses");
    check(got.len() == left, "every unspent output is listed once");
    check(got.iter().map(|o| o.2).sum::<u64>() == total, "with its amount");
    check(store.backend().balance(&q.app()) == total, "the balance is the sum of the unspent outputs");
    let mut seen = vec![false; n];
    for (id, k, v) in &got {
        if *id == c.id {
            check(!seen[*k as usize] && *v == 3 * *k as u64 + 1, "the right outputs");
            seen[*k as usize] = true;
        }
    }
});
