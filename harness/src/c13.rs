//! Unconfirmed transactions.
use crate::model::*;
use crate::node::*;
use vrt::*;

pub const TABLE: &[(&str, fn())] = &[("c13_pool", c13_pool), ("c13_change", c13_change), ("c13_race", c13_race), ("c13_many", c13_many), ("c13_inputs", c13_inputs)];
const T: bool = cfg!(feature = "thorough");

struct World {
    owners: [Addr; 3],
    chain: Chain,
    ops: Vec<(Id, u32)>,
}
fn world(conf: usize) -> World {
    let owners = [addr(0, 1), addr(5, 1), addr(0, 3)];
    let mut c = Chain::new();
    c.push(0, vec![coinbase(0, vec![pay(&owners[0], 1), pay(&owners[1], 2)])]);
    let a = c.blocks[0].txs[0].id;
    // spends one output of the base, so that its reappearance in the pool is a conflict
    c.push(1, vec![coinbase(1, vec![pay(&owners[0], 4)]), Tx::new(10, vec![(a, 1)], vec![pay(&owners[1], 2), pay(&owners[0], 0)])]);
    for h in 2..conf as u32 + 1 {
        c.push(h, vec![coinbase(h, vec![pay(&owners[1], 4 << h)])]);
    }
    let ops = vec![(a, 0), (a, 1), (c.blocks[1].txs[1].id, 0), (c.blocks[1].txs[0].id, 0), ([7; 32], 0), (a, 2)];
    World { owners, chain: c, ops }
}
/// A pool transaction spending one or two outputs of the chain or of earlier pool transactions.
fn any_tx(w: &World, earlier: &[Tx], salt: u32) -> Tx {
    let mut ops = w.ops.clone();
    for t in earlier {
        ops.push((t.id, 0));
    }
    let mut ins = vec![ops[choose("input", ops.len())]];
    if choose_bool("second input") {
        // the first chain outputs are enough as a partner
        let i = ops[choose("input 2", 3)];
        assume(i != ins[0]);
        ins.push(i);
    }
    Tx::with(salt, ins, vec![pay(&w.owners[2], 1 << (20 + salt % 20)), pay(&w.owners[0], 1 << (21 + salt % 20))], salt % 2 == 1)
}

// Any small pool, in any order.
harness!(c13_pool, {
    let conf = choose_in("confirmations", 1, 2);
    let w = world(conf);
    let n = choose("pool size", if T { 4 } else { 3 });
    let mut pool: Vec<Tx> = Vec::new();
    for k in 0..n as u32 {
        let t = any_tx(&w, &pool, 2 * k + 1);
        pool.push(t);
    }
    // the node lists them in any order
    if n > 1 && choose_bool("swapped") {
        pool.swap(0, 1);
    }
    start(w.chain.clone());
    node().pool = pool.clone();
    let mut seen = pool.clone();
    if n > 0 && choose_bool("undeliverable") {
        let k = choose("which", n);
        node().undeliverable.push(pool[k].id);
        seen.remove(k);
        reach("undeliverable");
    }
    let s = state(prefix(&w.chain, 1).store(), conf);
    let _ = block_on(s.update());
    check_answers(&s, &w.chain, &seen, &w.owners, "a pool transaction counts if and only if it applies");
    let mut l = Ledger::of(&w.chain.blocks);
    for t in &seen {
        if l.can(t) {
            l.tx(t);
            reach("applied");
        } else {
            reach("ignored");
        }
    }
});

// The pool changes between updates: transactions leave, are mined, become deliverable, conflict.
harness!(c13_change, {
    let conf = choose_in("confirmations", 1, 2);
    let w = world(conf);
    let p1 = Tx::new(31, vec![w.ops[0]], vec![pay(&w.owners[2], 1 << 20)]);
    let p2 = Tx::new(32, vec![(p1.id, 0)], vec![pay(&w.owners[0], 1 << 21)]);
    let p3 = Tx::new(33, vec![w.ops[0], w.ops[2]], vec![pay(&w.owners[1], 1 << 22)]);
    let all = [p1, p2, p3];
    start(w.chain.clone());
    let s = state(prefix(&w.chain, 1).store(), conf);
    let mut chain = w.chain.clone();
    for k in 0..3u32 {
        let mut pool = Vec::new();
        let mut lost = Vec::new();
        let mut l = Ledger::of(&chain.blocks);
        let mut mined = vec![coinbase(60 + k, vec![])];
        l.tx(&mined[0]);
        let block = k > 0 && choose_bool("block");
        for t in &all {
            let options = if k == 0 { 2 } else { 3 };
            match choose("fate", options) {
                0 => {}
                1 => {
                    pool.push(t.clone());
                }
                _ => {
                    if block && l.can(t) {
                        l.tx(t);
                        mined.push(t.clone());
                    } else if !block {
                        pool.push(t.clone());
                        lost.push(t.id);
                    }
                }
            }
        }
        if block {
            chain.push(60 + k, mined);
            switch(chain.clone());
            reach("block");
        }
        node().pool = pool.clone();
        node().undeliverable = lost.clone();
        let _ = block_on(s.update());
        // one that was delivered earlier may still be known although the node lost it since
        if lost.is_empty() {
            check_answers(&s, &chain, &pool, &w.owners, "answers follow the current pool");
            reach("settled");
        } else {
            check_depth(&s, &chain, &[], &w.owners, 1, "one confirmation is not affected by the pool");
            reach("lost");
        }
    }
});

// The pool changes while the update asks for its transactions.
harness!(c13_race, {
    let conf = 1;
    let w = world(conf);
    let p1 = Tx::new(31, vec![w.ops[0]], vec![pay(&w.owners[2], 1 << 20)]);
    let p2 = Tx::new(32, vec![(p1.id, 0)], vec![pay(&w.owners[0], 1 << 21)]);
    let p3 = Tx::new(33, vec![w.ops[2]], vec![pay(&w.owners[1], 1 << 22)]);
    start(w.chain.clone());
    let s = state(prefix(&w.chain, 1).store(), conf);
    node().pool = vec![p1.clone(), p2.clone(), p3.clone()];
    // a block takes the first one, the others go on waiting or leave
    let mut chain = w.chain.clone();
    chain.push(80, vec![coinbase(80, vec![]), p1]);
    let rest = if choose_bool("leave") { vec![p3] } else { vec![p2, p3] };
    node().events.push(Event::Chain(chain.clone()));
    node().events.push(Event::Pool(rest.clone()));
    let _ = block_on(s.update());
    if node().events.is_empty() {
        reach("changed during the update");
    }
    node().events.clear();
    switch(chain.clone());
    node().pool = rest.clone();
    let _ = block_on(s.update());
    check_answers(&s, &chain, &rest, &w.owners, "after the next update the answers follow the current pool");
    reach("settled");
});

// A pool of many transactions: chains, conflicts, unknown outputs and ones the node does not deliver.
harness!(c13_many, {
    let owners = [addr(0, 1), addr(5, 1), addr(0, 3)];
    let mut c = Chain::new();
    c.push(0, vec![coinbase(0, (0..40).map(|k| pay(&owners[k % 2], 1 + k as u64)).collect())]);
    c.push(1, vec![coinbase(1, vec![])]);
    let a = c.blocks[0].txs[0].id;
    let n = [20u32, 120][choose("pool size", 2)];
    let kind = choose("shape", 4);
    let mut pool: Vec<Tx> = Vec::new();
    for k in 0..n {
        let ins = match kind {
            // one long chain
            0 => vec![if k == 0 { (a, 0) } else { (pool[k as usize - 1].id, 0) }],
            // the outputs of the chain, again and again
            1 => vec![(a, k * 7 % 40)],
            // some apply, some spend what is not there
            2 => vec![(a, k)],
            // pairs
            _ => vec![if k % 2 == 0 || k < 3 { (a, k % 40) } else { (pool[k as usize - 3].id, 1) }],
        };
        pool.push(Tx::with(500 + k, ins, vec![pay(&owners[2], 1000 + k as u64), pay(&owners[k as usize % 2], 3)], k % 3 == 1));
    }
    start(c.clone());
    node().pool = pool.clone();
    let mut seen = pool.clone();
    if choose_bool("undeliverable") {
        let k = [0, n / 2, n - 1][choose("which", 3)] as usize;
        node().undeliverable.push(pool[k].id);
        seen.remove(k);
    }
    let s = state(prefix(&c, 1).store(), 2);
    let _ = block_on(s.update());
    check_depth(&s, &c, &seen, &owners, 0, "a pool transaction counts if and only if it applies");
    check_depth(&s, &c, &[], &owners, 1, "a pool transaction counts if and only if it applies");
    // most of it is mined
    let mut l = Ledger::of(&c.blocks);
    let mut txs = vec![coinbase(60, vec![])];
    for t in &seen[..seen.len() - 3] {
        if l.can(t) {
            l.tx(t);
            txs.push(t.clone());
        }
    }
    let rest = seen[seen.len() - 3..].to_vec();
    c.push(60, txs);
    switch(c.clone());
    node().pool = rest.clone();
    node().undeliverable.clear();
    let _ = block_on(s.update());
    check_depth(&s, &c, &rest, &owners, 0, "a pool transaction counts if and only if it applies");
    check_depth(&s, &c, &[], &owners, 1, "a pool transaction counts if and only if it applies");
    reach("many");
});

// A transaction with many inputs, one of which may be missing or spent.
harness!(c13_inputs, {
    let owners = [addr(0, 1), addr(5, 1), addr(0, 3)];
    let n = [3u32, 40, 300][choose("inputs", 3)];
    let mut c = Chain::new();
    c.push(0, vec![coinbase(0, (0..n + 1).map(|k| pay(&owners[k as usize % 2], 1 + k as u64)).collect())]);
    c.push(1, vec![coinbase(1, vec![])]);
    let a = c.blocks[0].txs[0].id;
    let mut ins: Vec<_> = (0..n).map(|k| (a, k)).collect();
    let k = [0, n / 2, n - 2, n - 1][choose("position", 4)] as usize;
    let mut pool = Vec::new();
    match choose("flaw", 4) {
        0 => reach("applies"),
        1 => ins[k] = (a, n + 7),
        2 => ins[k] = ([9; 32], 0),
        _ => pool.push(Tx::new(70, vec![(a, k as u32)], vec![pay(&owners[1], 5)])),
    }
    pool.push(Tx::new(71, ins, (0..n).map(|k| pay(&owners[k as usize % 3], 1000 + k as u64)).collect()));
    let id = pool.last().unwrap().id;
    pool.push(Tx::new(72, vec![(id, n - 1)], vec![pay(&owners[0], 7)]));
    start(c.clone());
    node().pool = pool.clone();
    let s = state(prefix(&c, 1).store(), 1);
    let _ = block_on(s.update());
    check_depth(&s, &c, &pool, &owners, 0, "a pool transaction counts if and only if it applies");
    check_depth(&s, &c, &[], &owners, 1, "one confirmation is not affected by the pool");
    reach("many inputs");
});
