//! The longest chain of the block files.
use crate::files::*;
use crate::model::*;
use app::block::BlockTrait;
use app::block_file_reader::{BlockFileReader, FileBlock};
use app::logger::Logger;
use vrt::*;

pub const TABLE: &[(&str, fn())] = &[("c16_trees", c16_trees), ("c16_copies", c16_copies), ("c16_branches", c16_branches), ("c16_many_copies", c16_many_copies), ("c16_long", c16_long), ("c16_deep", c16_deep)];
const T: bool = cfg!(feature = "thorough");

fn blk(prev: Id, k: u32) -> Blk {
    Blk::new(prev, k, vec![coinbase(k, vec![Out { value: k as u64 + 1, script: vec![0x51, k as u8] }])])
}
/// length of the chain from genesis that ends in block `k`, 0 if it does not start there
fn depth(all: &[Blk], k: usize) -> usize {
    if all[k].prev == [0; 32] {
        return 1;
    }
    match all.iter().position(|b| b.id == all[k].prev) {
        Some(p) => match depth(all, p) {
            0 => 0,
            d => d + 1,
        },
        None => 0,
    }
}
fn check_longest(all: &[Blk], got: &[FileBlock]) {
    check_chain(all, got, (0..all.len()).map(|k| depth(all, k)).max().unwrap_or(0));
}
fn check_chain(all: &[Blk], got: &[FileBlock], best: usize) {
    check(got.len() == best, "no chain in the files is longer than the result");
    let mut prev = [0u8; 32];
    for (h, g) in got.iter().enumerate() {
        check(g.height() == h, "heights count from 0");
        check(g.previous_block_hash() == prev, "every block links to the one before it, the first one is a genesis block");
        prev = g.hash();
        match all.iter().find(|b| b.id == prev) {
            Some(b) => check_data(g, b, "every block carries its own data"),
            None => check(false, "every block is one of those stored"),
        }
    }
    reach(["none", "one", "two", "three", "more"][best.min(4)]);
}
/// Any tree: every block follows the start, an earlier block or an unknown one.
fn tree(n: usize) -> Vec<Blk> {
    let mut all: Vec<Blk> = Vec::new();
    for k in 0..n {
        let p = choose("parent", k + 2);
        let prev = if p == 0 {
            [0; 32]
        } else if p <= k {
            all[p - 1].id
        } else {
            [0x77; 32]
        };
        all.push(blk(prev, k as u32));
    }
    all
}
fn shuffled(all: &[Blk]) -> Vec<&Blk> {
    let mut left: Vec<&Blk> = all.iter().collect();
    let mut v = Vec::new();
    while !left.is_empty() {
        v.push(left.remove(choose("next stored", left.len())));
    }
    v
}
fn read(threads: usize) -> Vec<FileBlock> {
    BlockFileReader::new(DIR).blocks(threads, &Logger::new())
}
fn store(v: &[&Blk], cut: usize) {
    fs::mkdir(DIR);
    file("blk00000.dat", &v[..cut], 0);
    file("blk00001.dat", &v[cut..], 100);
}
harness!(c16_trees, {
    let n = choose_in("blocks", 0, if T { 5 } else { 4 });
    let all = tree(n);
    let v = shuffled(&all);
    store(&v, v.len() / 2);
    check_longest(&all, &read(1));
});
// Some blocks are stored more than once.
harness!(c16_copies, {
    let n = choose_in("blocks", 1, if T { 4 } else { 3 });
    let all = tree(n);
    let mut v = shuffled(&all);
    for _ in 0..if n < 3 || T { 2 } else { 1 } {
        if choose_bool("copy") {
            let b = &all[choose("which", n)];
            v.insert(choose("where", v.len() + 1), b);
        }
    }
    store(&v, choose("in the first file", 2) * v.len() / 2);
    check_longest(&all, &read(1));
});
// Long branches, competing up to the last block.
harness!(c16_branches, {
    let len = if T { 14 } else { 8 };
    let mut all: Vec<Blk> = Vec::new();
    for k in 0..len {
        let p = all.last().map_or([0; 32], |b: &Blk| b.id);
        all.push(blk(p, k as u32));
    }
    // two branches off the main one, of any length
    for s in 0..2u32 {
        let mut p = all[choose("fork", len - 2)].id;
        for k in 0..choose("length", len + 2) as u32 {
            all.push(blk(p, 100 * (s + 1) + k));
            p = all.last().unwrap().id;
        }
    }
    let mut v: Vec<&Blk> = all.iter().collect();
    match choose("order", 3) {
        0 => {}
        1 => v.reverse(),
        _ => {
            let k = v.len() / 3;
            v.rotate_left(k);
        }
    }
    store(&v, v.len() / 2);
    check_longest(&all, &read(1));
});
// Every block stored twice or three times, in a long chain.
harness!(c16_many_copies, {
    let mut all: Vec<Blk> = Vec::new();
    for k in 0..40 {
        let p = all.last().map_or([0; 32], |b: &Blk| b.id);
        all.push(blk(p, k as u32));
    }
    let mut v: Vec<&Blk> = all.iter().collect();
    for _ in 0..choose_in("copies", 1, 2) {
        v.extend(all.iter());
    }
    store(&v, 45);
    check_longest(&all, &read(1));
});
// A long chain with stale branches, stored in several orders.
harness!(c16_long, {
    let n = 300;
    let mut all: Vec<Blk> = Vec::new();
    for k in 0..n {
        let p = all.last().map_or([0; 32], |b: &Blk| b.id);
        all.push(blk(p, k as u32));
    }
    let at = [0usize, 100, 254, 297][choose("fork", 4)];
    let mut p = all[at].id;
    let length = [1usize, 2, 3, 45, 46][choose("length", 5)];
    for k in 0..length {
        all.push(blk(p, 1000 + k as u32));
        p = all.last().unwrap().id;
    }
    let mut v: Vec<&Blk> = all.iter().collect();
    match choose("order", 3) {
        0 => {}
        1 => v.reverse(),
        _ => v.rotate_left(257),
    }
    store(&v, v.len() / 2);
    check_chain(&all, &read(1), n.max(at + 1 + length));
    reach("long");
});

// A chain as long as the real one is after a year and more, the newest blocks stored first.
harness!(c16_deep, {
    let n = 66000u32;
    let mut ids: Vec<Id> = vec![[0; 32]];
    let mut records: Vec<Vec<u8>> = Vec::new();
    for k in 0..n {
        let b = Blk::new(ids[k as usize], k, vec![]);
        let mut r = record(&b);
        r.truncate(89);
        ids.push(b.id);
        records.push(r);
    }
    records.reverse();
    fs::mkdir(DIR);
    fs::put(&format!("{}/blk00000.dat", DIR), records[..10].concat());
    fs::put(&format!("{}/blk00001.dat", DIR), records[10..].concat());
    let got = read(1);
    check(got.len() == n as usize, "no chain in the files is longer than the result");
    for (h, g) in got.iter().enumerate() {
        check(g.height() == h, "heights count from 0");
        check(eq(&g.previous_block_hash(), &ids[h]) && eq(&g.hash(), &ids[h + 1]), "every block links to the one before it, the first one is a genesis block");
    }
    reach("deep");
});
