//! Block files in the modelled file system.
use crate::model::*;
use app::block::BlockTrait;
use vrt::*;

pub const DIR: &str = "/vfs/blocks";
pub const MAGIC: [u8; 4] = [0xf9, 0xbe, 0xb4, 0xd9];

pub fn record(b: &Blk) -> Vec<u8> {
    let d = b.bytes();
    let mut v = Vec::with_capacity(d.len() + 8);
    v.extend_from_slice(&MAGIC);
    v.extend_from_slice(&(d.len() as u32).to_le_bytes());
    v.extend_from_slice(&d);
    v
}
pub fn file(name: &str, blocks: &[&Blk], padding: usize) {
    let mut v = Vec::new();
    for b in blocks {
        v.extend_from_slice(&record(b));
    }
    v.resize(v.len() + padding, 0);
    fs::put(&format!("{}/{}", DIR, name), v);
}
/// The result is `want`, from height 0, every block with its own data.
pub fn check_blocks(got: &[app::block_file_reader::FileBlock], want: &[&Blk], m: &str) {
    check(got.len() == want.len(), m);
    for (h, (g, w)) in got.iter().zip(want).enumerate() {
        check(g.height() == h, m);
        check(eq(&g.hash(), &w.id) && eq(&g.previous_block_hash(), &w.prev), m);
        check_data(g, w, m);
    }
}
pub fn check_data(g: &app::block_file_reader::FileBlock, w: &Blk, m: &str) {
    let mut n = 0;
    g.transactions(&mut |t| {
        check(n < w.txs.len(), m);
        let x = &w.txs[n];
        check(eq(&t.hash, &x.id), m);
        check(t.inputs.len() == x.ins.len() && t.outputs.len() == x.outs.len(), m);
        for (i, y) in t.inputs.iter().zip(&x.ins) {
            check(eq(&i.hash, &y.0) && i.index == y.1, m);
        }
        for (o, y) in t.outputs.iter().zip(&x.outs) {
            check(o.value == y.value && eq(&o.script, &y.script), m);
        }
        n += 1;
    });
    check(n == w.txs.len(), m);
}
