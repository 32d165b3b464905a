//! Following the node through growth and reorganisations.
use crate::model::*;
use crate::node::*;
use vrt::*;

pub const TABLE: &[(&str, fn())] = &[("c12_follow", c12_follow), ("c12_race", c12_race), ("c12_spends", c12_spends), ("c12_long", c12_long), ("c12_far", c12_far)];
const T: bool = cfg!(feature = "thorough");

/// One block; it spends the coin `back` blocks old, if there is one, and its own coinbase's second output.
fn grow(c: &mut Chain, salt: u32, owners: &[Addr], back: usize) {
    let h = c.blocks.len();
    let v = |k: u32| 1u64 << ((salt * 3 + k) % 50);
    let mut txs = vec![coinbase(salt, vec![pay(&owners[0], v(0)), pay(&owners[1], v(1))])];
    if h >= back {
        let src = if back == 0 { txs[0].id } else { c.blocks[h - back].txs[0].id };
        txs.push(Tx::new(1000 + salt, vec![(src, 0)], vec![pay(&owners[1], v(2)), Out { value: 1, script: vec![0x51] }]));
    }
    c.push(salt, txs);
}
/// The chain after the node dropped `depth` blocks and found `more` than that.
fn reorg(c: &Chain, depth: usize, new: usize, salt: u32, owners: &[Addr], back: usize) -> Chain {
    let mut n = prefix(c, c.blocks.len() - depth);
    for k in 0..new {
        grow(&mut n, salt + k as u32, owners, back);
    }
    n
}
fn settled(s: &std::sync::Arc<app::state::State>, chain: &Chain, owners: &[Addr]) {
    check_answers(s, chain, &[], owners, "after an update every answer is that of the node's chain");
    let p = permanent(s);
    check_index(&p, &chain.blocks[..chain.blocks.len() + 1 - s.confirmations()], owners, "the permanent index holds exactly the blocks with enough confirmations");
}

// Several updates; before each the node's chain grows or reorganises.
harness!(c12_follow, {
    let owners = [addr(0, 1), addr(5, 1)];
    let conf = choose_in("confirmations", 1, 3);
    let back = choose_in("age of what is spent", 0, 2);
    let mut c = Chain::new();
    for h in 0..conf as u32 {
        grow(&mut c, h, &owners, back);
    }
    start(c.clone());
    let s = state(prefix(&c, 1).store(), conf);
    let _ = block_on(s.update());
    let steps = if T { 3 } else { 2 };
    let mut pushed = 0;
    for k in 1..=steps as u32 {
        // a reorganisation reaches no deeper than the blocks not yet permanent
        let depth = choose("depth", conf);
        let new = if depth == 0 { choose("new blocks", 3) } else { depth + choose_in("longer by", 1, 2) };
        let n = reorg(node_chain(), depth, new, 20 * k, &owners, back);
        if depth > 0 {
            reach("reorganised");
        }
        switch(n);
        if block_on(s.update()) {
            pushed += 1;
        }
        settled(&s, node_chain(), &owners);
    }
    if pushed > 0 {
        reach("moved");
    }
    reach(["", "one", "two", "three"][conf]);
});
fn node_chain() -> &'static Chain {
    &node().chain
}

// The node's chain changes between any two requests of an update.
harness!(c12_race, {
    let owners = [addr(0, 1), addr(5, 1)];
    let conf = choose_in("confirmations", 1, 3);
    let back = choose("age of what is spent", 2);
    let mut c = Chain::new();
    for h in 0..conf as u32 {
        grow(&mut c, h, &owners, back);
    }
    start(c.clone());
    let s = state(prefix(&c, 1).store(), conf);
    let _ = block_on(s.update());
    // what the node does while the next update runs
    let mut cur = c.clone();
    for k in 1..=2u32 {
        let depth = choose("depth", conf);
        let new = if depth == 0 { 1 } else { depth + 1 };
        cur = reorg(&cur, depth, new, 20 * k, &owners, back);
        node().events.push(Event::Chain(cur.clone()));
    }
    let _ = block_on(s.update());
    if node().events.is_empty() {
        reach("changed during the update");
    }
    // once the node is at rest
    while !node().events.is_empty() {
        if let Event::Chain(c) = node().events.remove(0) {
            switch(c);
        }
    }
    let _ = block_on(s.update());
    settled(&s, &cur, &owners);
    reach("settled");
});

// Both branches spend, create and respend the same outputs in all combinations.
harness!(c12_spends, {
    let owners = [addr(0, 1), addr(5, 1)];
    let conf = choose_in("confirmations", 2, 3);
    let mut c = Chain::new();
    for h in 0..conf as u32 {
        c.push(h, vec![coinbase(h, vec![pay(&owners[0], 1 << (2 * h)), pay(&owners[0], 2 << (2 * h))])]);
    }
    // shared transactions that either branch may include, in order
    let a = c.blocks[0].txs[0].id;
    let t1 = Tx::new(50, vec![(a, 0)], vec![pay(&owners[1], 1 << 20)]);
    let t2 = Tx::new(51, vec![(a, 1), (t1.id, 0)], vec![pay(&owners[1], 1 << 21), pay(&owners[0], 1 << 22)]);
    let t3 = Tx::new(52, vec![(a, 0)], vec![pay(&owners[0], 1 << 23)]);
    let branch = |salt: u32, len: usize, from: &Chain| {
        let mut n = from.clone();
        let mut l = Ledger::of(&n.blocks);
        for k in 0..len as u32 {
            let mut txs = vec![coinbase(salt + k, vec![pay(&owners[0], 1 << (30 + k))])];
            l.tx(&txs[0]);
            for t in [&t1, &t2, &t3] {
                if l.can(t) && choose_bool("include") {
                    l.tx(t);
                    txs.push(t.clone());
                }
            }
            n.push(salt + k, txs);
        }
        n
    };
    let fork = prefix(&c, 2);
    let old = branch(100, conf - 1, &fork);
    let new = branch(200, conf, &fork);
    start(old.clone());
    let s = state(prefix(&c, 1).store(), conf);
    let _ = block_on(s.update());
    settled(&s, &old, &owners);
    switch(new.clone());
    let _ = block_on(s.update());
    settled(&s, &new, &owners);
    reach("settled");
});

// Many blocks at once and one after the other.
harness!(c12_long, {
    let owners = [addr(0, 1), addr(5, 1)];
    let conf = choose_in("confirmations", 1, 6);
    let back = choose_in("age of what is spent", 0, 4);
    let mut c = Chain::new();
    for h in 0..(conf + choose("behind", 6)) as u32 {
        grow(&mut c, h, &owners, back);
    }
    start(c.clone());
    let s = state(prefix(&c, 1).store(), conf);
    let _ = block_on(s.update());
    settled(&s, &c, &owners);
    for k in 0..3u32 {
        if k == 1 && conf > 1 {
            c = reorg(&c, conf - 1, conf + 1, 300, &owners, back);
        } else {
            for j in 0..choose("new blocks", 4) as u32 {
                grow(&mut c, 100 + 10 * k + j, &owners, back);
            }
        }
        switch(c.clone());
        let _ = block_on(s.update());
        settled(&s, &c, &owners);
    }
    reach("long");
});

// Many blocks behind, and a deep reorganisation.
harness!(c12_far, {
    let owners = [addr(0, 1), addr(5, 1)];
    let conf = [1usize, 6, 30][choose("confirmations", 3)];
    let back = [0usize, 1, 5][choose("age of what is spent", 3)];
    let mut c = Chain::new();
    for h in 0..conf as u32 + [1, 20, 70][choose("behind", 3)] {
        grow(&mut c, h, &owners, back);
    }
    start(c.clone());
    let s = state(prefix(&c, 1).store(), conf);
    let _ = block_on(s.update());
    // the number of requests is checked by the node
    node().requests = 0;
    check_depth(&s, &c, &[], &owners, 0, "after an update every answer is that of the node's chain");
    check_depth(&s, &c, &[], &owners, 1, "after an update every answer is that of the node's chain");
    check_depth(&s, &c, &[], &owners, conf, "after an update every answer is that of the node's chain");
    let depth = [0, 1, conf / 2, conf - 1][choose("depth", 4)].min(conf - 1);
    let n = reorg(&c, depth, depth + [1, 3, 40][choose("longer by", 3)], 500, &owners, back);
    switch(n.clone());
    let _ = block_on(s.update());
    check_depth(&s, &n, &[], &owners, 0, "after an update every answer is that of the node's chain");
    check_depth(&s, &n, &[], &owners, 1, "after an update every answer is that of the node's chain");
    check_depth(&s, &n, &[], &owners, conf, "after an update every answer is that of the node's chain");
    let p = permanent(&s);
    check_index(&p, &n.blocks[..n.blocks.len() + 1 - conf], &owners, "the permanent index holds exactly the blocks with enough confirmations");
    reach("far");
});
