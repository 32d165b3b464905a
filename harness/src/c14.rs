//! Queries concurrent with updates and saves.
use crate::model::*;
use crate::node::*;
use app::state::State;
use std::sync::Arc;
use vrt::*;

pub const TABLE: &[(&str, fn())] = &[("c14_query", c14_query), ("c14_reorg", c14_reorg), ("c14_order", c14_order), ("c14_save", c14_save), ("c14_queries", c14_queries)];
const T: bool = cfg!(feature = "thorough");

type Snapshot = (Chain, Vec<Tx>);
type Answer = (u64, Vec<(Id, u32, u64)>);

/// Every block moves a coin of the first owner to the second and creates a new one.
fn grow(c: &mut Chain, salt: u32, o: &[Addr], from: (Id, u32)) -> (Id, u32) {
    let cb = coinbase(salt, vec![pay(&o[0], 1 << (3 * (salt % 15)))]);
    let op = (cb.id, 0);
    let mut txs = vec![cb];
    if from != NULL {
        txs.push(Tx::new(1000 + salt, vec![from], vec![pay(&o[1], 2 << (3 * (salt % 15))), pay(&o[0], 4 << (3 * (salt % 15)))]));
    }
    c.push(salt, txs);
    op
}
fn chain(n: usize, salt: u32, o: &[Addr]) -> Chain {
    let mut c = Chain::new();
    let mut from = NULL;
    for h in 0..n as u32 {
        from = grow(&mut c, salt + h, o, from);
    }
    c
}
fn extend(c: &Chain, keep: usize, n: usize, salt: u32, o: &[Addr]) -> Chain {
    let mut c = prefix(c, keep);
    let mut from = (c.blocks[keep - 1].txs[0].id, 0);
    for h in 0..n as u32 {
        from = grow(&mut c, salt + h, o, from);
    }
    c
}
fn expected(s: &Snapshot, a: &Addr, c: usize) -> Answer {
    let l = ledger_at(&s.0, &s.1, c);
    let mut v: Vec<(Id, u32, u64)> = l.coins.iter().filter(|x| x.script == a.script()).map(|x| (x.op.0, x.op.1, x.value)).collect();
    v.sort();
    (v.iter().map(|x| x.2).sum(), v)
}
/// One query of any kind; the numbers of the snapshots it agrees with.
fn ask(s: &Arc<State>, snaps: &[Snapshot], o: &[Addr], kind: usize, c: usize) -> Vec<usize> {
    let app: Vec<_> = o.iter().map(|a| a.app()).collect();
    let sorted = |v: &mut Vec<(Id, u32, u64)>| v.sort();
    // per owner: balance or outputs
    let mut bal: Vec<Option<u64>> = vec![None; o.len()];
    let mut out: Vec<Option<Vec<(Id, u32, u64)>>> = vec![None; o.len()];
    match kind {
        0 => {
            let mut v = Vec::new();
            block_on(s.iterate_transaction_outputs(&app[0], c, |t, x| v.push((t.hash, t.index, x))));
            sorted(&mut v);
            out[0] = Some(v);
        }
        1 => bal[0] = Some(block_on(s.balance(&app[0], c))),
        2 => {
            let r = block_on(s.transaction_outputs_array(app, c));
            check(r.len() == o.len(), "one answer per address");
            for (k, (_, x)) in r.into_iter().enumerate() {
                let mut v: Vec<_> = x.into_iter().map(|(t, x)| (t.hash, t.index, x)).collect();
                sorted(&mut v);
                out[k] = Some(v);
            }
        }
        _ => {
            let r = block_on(s.balance_array(app, c));
            check(r.len() == o.len(), "one answer per address");
            for (k, (_, x)) in r.into_iter().enumerate() {
                bal[k] = Some(x);
            }
        }
    }
    let mut fits = Vec::new();
    for (k, snap) in snaps.iter().enumerate() {
        let mut ok = true;
        for (j, a) in o.iter().enumerate() {
            let e = expected(snap, a, c);
            ok &= bal[j].map_or(true, |x| x == e.0);
            ok &= out[j].as_ref().map_or(true, |x| *x == e.1);
        }
        if ok {
            fits.push(k);
        }
    }
    fits
}
fn done<T>(h: tokio::task::JoinHandle<T>) -> T {
    match block_on(h) {
        Ok(v) => v,
        Err(_) => {
            check(false, "an update, a save or a query failed");
            stop()
        }
    }
}
const MIX: &str = "the answer is that before or that after an update, no mixture";

/// One update that takes the service from the first snapshot to the second, next to one query.
fn one(conf: usize, a: Snapshot, b: Snapshot, o: [Addr; 2]) {
    start(a.0.clone());
    node().pool = a.1.clone();
    let s = state(prefix(&a.0, 1).store(), conf);
    let _ = block_on(s.update());
    switch(b.0.clone());
    node().pool = b.1.clone();
    let kind = choose("query", 4);
    let c = choose("depth", conf + 1);
    let snaps = [a, b];
    let s2 = s.clone();
    let u = tokio::spawn(async move {
        let _ = s2.update().await;
    });
    let fits = ask(&s, &snaps, &o, kind, c);
    check(!fits.is_empty(), MIX);
    if fits.len() == 1 {
        reach(["before", "after"][fits[0]]);
    }
    done(u);
    check_answers(&s, &snaps[1].0, &snaps[1].1, &o, "the update is complete");
}
harness!(c14_query, {
    sched::set_preemptions(if T { 4 } else { 2 });
    let o = [addr(0, 1), addr(5, 1)];
    let conf = choose_in("confirmations", 1, 3);
    let c0 = chain(conf, 0, &o);
    let c1 = extend(&c0, c0.blocks.len(), choose_in("new blocks", 0, 2), 20, &o);
    let spend = Tx::new(90, vec![(c0.blocks[conf - 1].txs[0].id, 0)], vec![pay(&o[1], 1 << 50)]);
    let other = Tx::new(91, vec![(c0.blocks[0].txs[0].id, 0)], vec![pay(&o[1], 1 << 51)]);
    let second = Tx::new(92, vec![(spend.id, 0)], vec![pay(&o[0], 1 << 50)]);
    let pool0 = if choose_bool("pool") { vec![spend.clone(), other] } else { vec![] };
    one(conf, (c0, pool0), (c1, vec![spend, second]), o);
});
harness!(c14_reorg, {
    sched::set_preemptions(if T { 4 } else { 2 });
    let o = [addr(0, 1), addr(5, 1)];
    let conf = choose_in("confirmations", 2, 3);
    let c0 = chain(conf + 1, 0, &o);
    let depth = choose_in("depth of the reorganisation", 1, conf - 1);
    let c1 = extend(&c0, c0.blocks.len() - depth, depth + choose_in("longer by", 1, 2), 40, &o);
    one(conf, (c0, vec![]), (c1, vec![]), o);
});
// Two queries of one client never go back in time; two updates.
harness!(c14_order, {
    sched::set_preemptions(if T { 3 } else { 2 });
    let o = [addr(0, 1), addr(5, 1)];
    let conf = choose_in("confirmations", 1, 2);
    let c0 = chain(conf, 0, &o);
    let c1 = extend(&c0, c0.blocks.len(), 1, 20, &o);
    let c2 = extend(&c1, c1.blocks.len(), 1, 30, &o);
    start(c0.clone());
    let s = state(prefix(&c0, 1).store(), conf);
    let _ = block_on(s.update());
    let s2 = s.clone();
    let (d1, d2) = (c1.clone(), c2.clone());
    let u = tokio::spawn(async move {
        switch(d1);
        let _ = s2.update().await;
        switch(d2);
        let _ = s2.update().await;
    });
    let snaps = [(c0, vec![]), (c1, vec![]), (c2, vec![])];
    let kind = choose("query", 4);
    let c = choose("depth", conf + 1);
    let f1 = ask(&s, &snaps, &o, kind, c);
    let f2 = ask(&s, &snaps, &o, 3 - kind, c);
    check(!f1.is_empty() && !f2.is_empty(), MIX);
    check(f2.iter().max() >= f1.iter().min(), "a later query does not answer from an older state");
    if f1 == [0] && f2 == [2] {
        reach("both updates between");
    }
    if f1 == [1] {
        reach("between");
    }
    done(u);
});
// A save runs as well.
harness!(c14_save, {
    sched::set_preemptions(if T { 3 } else { 2 });
    let o = [addr(0, 1), addr(5, 1)];
    let conf = choose_in("confirmations", 1, 2);
    let c0 = chain(conf, 0, &o);
    let c1 = extend(&c0, c0.blocks.len(), 1, 20, &o);
    start(c0.clone());
    let s = state(prefix(&c0, 1).store(), conf);
    let _ = block_on(s.update());
    switch(c1.clone());
    let (s2, s3) = (s.clone(), s.clone());
    let u = tokio::spawn(async move {
        let _ = s2.update().await;
    });
    let w = tokio::spawn(async move { s3.write("/vfs/store").await });
    let snaps = [(c0, vec![]), (c1, vec![])];
    let fits = ask(&s, &snaps, &o, 2 + choose("query", 2), choose("depth", conf + 1));
    check(!fits.is_empty(), MIX);
    if fits.len() == 1 {
        reach(["before", "after"][fits[0]]);
    }
    done(u);
    done(w);
    check_answers(&s, &snaps[1].0, &[], &o, "the update is complete");
});
// Two clients at once.
harness!(c14_queries, {
    sched::set_preemptions(if T { 3 } else { 2 });
    let o = [addr(0, 1), addr(5, 1)];
    let c0 = chain(2, 0, &o);
    let c1 = extend(&c0, 1, 2, 20, &o);
    start(c0.clone());
    let s = state(prefix(&c0, 1).store(), 2);
    let _ = block_on(s.update());
    switch(c1.clone());
    let (s2, s3) = (s.clone(), s.clone());
    let snaps = [(c0, vec![]), (c1, vec![])];
    let sn = snaps.clone();
    let u = tokio::spawn(async move {
        let _ = s2.update().await;
    });
    let kind = choose("query", 4);
    let q = tokio::spawn(async move {
        let f = ask(&s3, &sn, &o, kind, 0);
        check(!f.is_empty(), MIX);
    });
    let fits = ask(&s, &snaps, &o, 2, 1);
    check(!fits.is_empty(), MIX);
    done(u);
    done(q);
    reach("two");
});
