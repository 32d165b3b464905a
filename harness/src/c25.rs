//! The system clock jumps.
use crate::model::*;
use crate::node::*;
use app::chronometer::Chronometer;
use app::logger::{Logger, PartialLogger};
use app::store::IndexedStore;
use vrt::*;

pub const TABLE: &[(&str, fn())] = &[("c25_elapsed", c25_elapsed), ("c25_service", c25_service), ("c25_files", c25_files)];
const T: bool = cfg!(feature = "thorough");

const T0: i64 = 1_700_000_000;
static mut SECONDS: [i64; 3] = [T0; 3];
static mut NANOS: [i64; 3] = [0; 3];

// Any two readings.
harness!(c25_elapsed, {
    unsafe {
        // the second one up to three hours apart from any first one of two, or far away
        for k in 0..2 {
            let n = any_u32("nanoseconds");
            assume(n < 1_000_000_000);
            NANOS[k] = n as i64;
        }
        SECONDS[0] = [T0, -5][choose("first", 2)];
        let d = any_i64("seconds between");
        assume((d >= -10_000) & (d <= 10_000));
        let far = [0, 1 << 20, -(1 << 20), 1 << 36, -(1 << 36)][choose("far", 5)];
        SECONDS[1] = SECONDS[0] + far + if far == 0 { d } else { 0 };
        SECONDS[2] = SECONDS[1];
        NANOS[2] = NANOS[1];
        posix::CLOCK = Some(|_, k| (SECONDS[k.min(2)], NANOS[k.min(2)]));
    }
    let l = Logger::new();
    if choose_bool("direct") {
        let _ = Chronometer::new();
        let c = Chronometer::new();
        let _ = c.elapsed();
        reach("chronometer");
    } else {
        l.log("x");
        reach("logger");
    }
});

static mut JUMP_AT: usize = 0;
static mut JUMP: (i64, i64) = (0, 0);
static mut WALL: usize = 0;
static mut MONO: i64 = 0;
fn clock(id: i32, _: usize) -> (i64, i64) {
    unsafe {
        if id != 0 {
            // only the system clock can be set
            MONO += 1_000_000;
            return (MONO / 1_000_000_000, MONO % 1_000_000_000);
        }
        let k = WALL;
        WALL += 1;
        if k < JUMP_AT {
            (T0, 1000 * k as i64)
        } else {
            reach("jumped");
            (T0 + JUMP.0, JUMP.1)
        }
    }
}
fn any_jump(readings: usize) {
    unsafe {
        JUMP_AT = choose("the clock is set before reading", readings);
        JUMP = [(0, 0), (-1, 999_999_999), (-3600, 0), (-T0, 0), (-T0 - 5, 7), (1_000_000_000, 5), (0, 999_000_000)][choose("to", 7)];
        WALL = 0;
        posix::CLOCK = Some(clock);
    }
}
fn grow(c: &mut Chain, salt: u32, o: &[Addr]) {
    let cb = coinbase(salt, vec![pay(&o[0], 1 << salt), pay(&o[1], 2 << salt)]);
    let mut txs = vec![cb];
    if let Some(b) = c.blocks.last() {
        txs.push(Tx::new(1000 + salt, vec![(b.txs[0].id, 0)], vec![pay(&o[1], 1 << salt)]));
    }
    c.push(salt, txs);
}
// Updating, saving and answering.
harness!(c25_service, {
    let o = [addr(0, 1), addr(5, 1)];
    let mut c = Chain::new();
    for h in 0..2 {
        grow(&mut c, h, &o);
    }
    let all = c.clone();
    start(c.clone());
    any_jump(if T { 80 } else { 45 });
    let s = state(prefix(&c, 1).store(), 2);
    let _ = block_on(s.update());
    check_answers(&s, &c, &[], &o, "the clock does not matter");
    let gone = Tx::new(7, vec![(all.blocks[1].txs[0].id, 0)], vec![pay(&o[1], 3)]);
    node().pool = vec![gone.clone()];
    node().undeliverable = vec![gone.id];
    grow(&mut c, 5, &o);
    switch(c.clone());
    let _ = block_on(s.update());
    check_answers(&s, &c, &[], &o, "the clock does not matter");
    // the pool alone changes
    node().pool.push(Tx::new(8, vec![(c.blocks[2].txs[0].id, 1)], vec![pay(&o[0], 9)]));
    let _ = block_on(s.update());
    let pool = node().pool[1..].to_vec();
    check_answers(&s, &c, &pool, &o, "the clock does not matter");
    block_on(s.write("/vfs/store"));
    let f = IndexedStore::from_file("/vfs/store", &Logger::new()).unwrap();
    check_index(&f, &c.blocks[..2], &o, "the clock does not matter");
    reach("service");
});
// Reading block files and building.
harness!(c25_files, {
    let o = [addr(0, 1), addr(5, 1)];
    let mut c = Chain::new();
    for h in 0..3 {
        grow(&mut c, h, &o);
    }
    fs::mkdir(crate::files::DIR);
    let w: Vec<&Blk> = c.blocks.iter().collect();
    crate::files::file("blk00000.dat", &w[..2], 100);
    crate::files::file("blk00001.dat", &w[2..], 3);
    sched::set_preemptions(0);
    let threads = choose_in("threads", 1, 2);
    any_jump(40);
    let l = Logger::new();
    let b = app::block_file_reader::BlockFileReader::new(crate::files::DIR).blocks(threads, &l);
    let s = IndexedStore::from_blocks(b, threads, 2, l);
    check_index(&s, &c.blocks, &o, "the clock does not matter");
    s.to_file("/vfs/store", &l);
    let f = IndexedStore::from_file("/vfs/store", &l).unwrap();
    check_index(&f, &c.blocks, &o, "the clock does not matter");
    let mut p = PartialLogger::new(2, &l);
    for _ in 0..5 {
        p.log(|k| k);
    }
    reach("built");
});
