//! Decoding of transactions and blocks against a reference serializer.
use app::block::{Block, BlockHeader, BlockTrait};
use app::hashing_buffer_reader::HashingBufferReader;
use app::transaction::Transaction;
use crate::model::var_int;
use vrt::*;

pub const TABLE: &[(&str, fn())] = &[("c02_tx", c02_tx), ("c02_lengths", c02_lengths), ("c02_counts", c02_counts), ("c02_masses", c02_masses), ("c02_witness", c02_witness), ("c02_block", c02_block), ("c02_many", c02_many), ("c02_prefixes", c02_prefixes)];
const T: bool = cfg!(feature = "thorough");

struct In {
    hash: [u8; 32],
    index: u32,
    script: Vec<u8>,
    seq: [u8; 4],
    wit: Vec<Vec<u8>>,
}
struct Out {
    value: u64,
    script: Vec<u8>,
}
struct Tx {
    version: [u8; 4],
    ins: Vec<In>,
    outs: Vec<Out>,
    lock: [u8; 4],
    segwit: bool,
}
fn ser(t: &Tx, full: bool) -> Vec<u8> {
    ser_with(t, full, var_int)
}
/// with another way of writing lengths
fn ser_with(t: &Tx, full: bool, mut var_int: impl FnMut(&mut Vec<u8>, usize)) -> Vec<u8> {
    let mut v = Vec::with_capacity(512);
    v.extend_from_slice(&t.version);
    if full && t.segwit {
        v.push(0);
        v.push(1);
    }
    var_int(&mut v, t.ins.len());
    for i in &t.ins {
        v.extend_from_slice(&i.hash);
        v.extend_from_slice(&i.index.to_le_bytes());
        var_int(&mut v, i.script.len());
        v.extend_from_slice(&i.script);
        v.extend_from_slice(&i.seq);
    }
    var_int(&mut v, t.outs.len());
    for o in &t.outs {
        v.extend_from_slice(&o.value.to_le_bytes());
        var_int(&mut v, o.script.len());
        v.extend_from_slice(&o.script);
    }
    if full && t.segwit {
        for i in &t.ins {
            var_int(&mut v, i.wit.len());
            for w in &i.wit {
                var_int(&mut v, w.len());
                v.extend_from_slice(w);
            }
        }
    }
    v.extend_from_slice(&t.lock);
    v
}
fn any_in(script: usize, wit: &[usize]) -> In {
    In { hash: any_array("outpoint"), index: any_u32("index"), script: any_vec("script", script), seq: any_array("sequence"), wit: wit.iter().map(|n| any_vec("witness", *n)).collect() }
}
fn any_out(script: usize) -> Out {
    Out { value: any_u64("value"), script: any_vec("script", script) }
}
fn tx(ins: Vec<In>, outs: Vec<Out>, segwit: bool) -> Tx {
    Tx { version: any_array("version"), ins, outs, lock: any_array("locktime"), segwit }
}
fn same(t: &Tx, d: &Transaction) {
    same_fields(t, d);
    check_eq(&d.hash, &hash2(&ser(t, false)), "the id is the double hash of the serialization without witness");
}
fn same_fields(t: &Tx, d: &Transaction) {
    check(d.inputs.len() == t.ins.len(), "every input is decoded");
    for (k, i) in t.ins.iter().enumerate() {
        check_eq(&d.inputs[k].hash, &i.hash, "spent outpoint: transaction id");
        check(d.inputs[k].index == i.index, "spent outpoint: output number");
    }
    check(d.outputs.len() == t.outs.len(), "every output is decoded");
    for (k, o) in t.outs.iter().enumerate() {
        check(d.outputs[k].value == o.value, "output value");
        check_eq(&d.outputs[k].script, &o.script, "output script");
    }
}
fn decode(t: &Tx) {
    let mut b = ser(t, true);
    let n = b.len();
    b.extend_from_slice(&any_array::<5>("following bytes"));
    let mut r = HashingBufferReader::new(&b);
    let d = Transaction::from_reader(&mut r);
    check(r.offset() == n, "exactly the bytes of the transaction are consumed");
    same(t, &d);
    check_eq(&Transaction::from_slice(&b[..n]).hash, &d.hash, "the same from a slice");
    reach(if t.segwit { "segwit" } else { "legacy" });
}

harness!(c02_tx, {
    let segwit = choose_bool("segwit");
    let ni = choose_in("inputs", 1, if T { 3 } else { 2 });
    let no = choose("outputs", if T { 4 } else { 3 });
    let mut ins = Vec::new();
    for _ in 0..ni {
        let wit: Vec<usize> = if segwit { [vec![], vec![0], vec![2, 1]][choose("witness items", 3)].clone() } else { vec![] };
        ins.push(any_in([0, 2][choose("script length", 2)], &wit));
    }
    let mut outs = Vec::new();
    for _ in 0..no {
        outs.push(any_out([0, 3][choose("script length", 2)]));
    }
    decode(&tx(ins, outs, segwit));
});

// Lengths around the limits of the length prefixes.
const SIZES: [usize; 5] = [252, 253, 254, 255, 256];
const LARGE: [usize; 3] = [65_535, 65_536, 65_537];
fn patch(n: usize) -> Vec<u8> {
    // long content: arbitrary at both ends, a fixed pattern between
    let mut v: Vec<u8> = (0..n).map(|k| (k % 251) as u8).collect();
    any_bytes("first", &mut v[..1]);
    any_bytes("last", &mut v[n - 1..]);
    v
}
fn size() -> usize {
    let k = choose("size", SIZES.len() + LARGE.len());
    if k < SIZES.len() {
        SIZES[k]
    } else {
        LARGE[k - SIZES.len()]
    }
}
harness!(c02_lengths, {
    let n = size();
    let mut i = any_in(0, &[]);
    let mut o = any_out(0);
    let mut segwit = false;
    match choose("where", 3) {
        0 => i.script = patch(n),
        1 => o.script = patch(n),
        _ => {
            segwit = true;
            i.wit = vec![patch(n)]
        }
    }
    decode(&tx(vec![i], vec![o, any_out(1)], segwit));
});

// As many inputs, outputs or witness items as need a longer count.
harness!(c02_counts, {
    let n = [252usize, 253, 256, 254, 255, 300][choose("count", if T { 6 } else { 3 })];
    let small = |k: usize| In { hash: [k as u8; 32], index: k as u32, script: vec![], seq: [1; 4], wit: vec![] };
    let mut ins = vec![any_in(1, &[])];
    let mut outs = vec![any_out(1)];
    let mut segwit = choose_bool("segwit");
    match choose("where", 3) {
        0 => ins.extend((1..n).map(small)),
        1 => outs.extend((1..n).map(|k| Out { value: k as u64, script: vec![] })),
        _ => {
            segwit = true;
            ins[0].wit = (0..n).map(|k| vec![k as u8; k % 2]).collect()
        }
    }
    ins.push(any_in(0, &[]));
    outs.push(any_out(0));
    decode(&tx(ins, outs, segwit));
});

// Witness content that looks like anything.
harness!(c02_witness, {
    let n = choose("length", if T { 80 } else { 40 });
    let i = any_in(1, &[n, 1]);
    decode(&tx(vec![i, any_in(0, &[3])], vec![any_out(2)], true));
    reach("witness");
});

harness!(c02_block, {
    let header: [u8; 80] = any_array("header");
    let n = choose_in("transactions", 1, if T { 4 } else { 3 });
    let mut txs = Vec::new();
    for _ in 0..n {
        let segwit = choose_bool("segwit");
        let w: &[usize] = if segwit { &[1, 0] } else { &[] };
        txs.push(tx(vec![any_in(choose("script", 2), w)], vec![any_out(1)], segwit));
    }
    let mut b = header.to_vec();
    var_int(&mut b, n);
    for t in &txs {
        b.extend_from_slice(&ser(t, true));
    }
    let h = BlockHeader::from_buffer(&b);
    check_eq(&h.hash, &hash2(&header), "the block id is the double hash of the header");
    check_eq(&h.previous_block_hash, &header[4..36], "the id of the previous block");
    let block = Block::new(&b, 77);
    check(block.height() == 77, "height");
    check_eq(&block.hash(), &h.hash, "block id");
    check_eq(&block.previous_block_hash(), &header[4..36], "the id of the previous block");
    let mut k = 0;
    block.transactions(&mut |d| {
        check(k < n, "no more transactions than the block has");
        same(&txs[k], d);
        k += 1;
    });
    check(k == n, "every transaction of the block, in order");
    let mut k = 0;
    app::block::iterate_transactions(&b, &mut |d| {
        check(k < n, "no more transactions than the block has");
        same(&txs[k], &d);
        k += 1;
    });
    check(k == n, "every transaction of the block, in order");
    reach("block");
});

// Blocks with as many transactions as need a longer count.
harness!(c02_many, {
    let n = [252usize, 253, 256, 300, 70_000][choose("transactions", if T { 5 } else { 4 })];
    let mut b = any_array::<80>("header").to_vec();
    var_int(&mut b, n);
    let mark = choose("arbitrary", 3) * (n - 1) / 2;
    let mut want = None;
    for k in 0..n {
        let t = if k == mark {
            tx(vec![any_in(1, &[2])], vec![any_out(1)], true)
        } else {
            Tx { version: [2, 0, 0, 0], ins: vec![In { hash: [7; 32], index: k as u32, script: vec![], seq: [1; 4], wit: vec![] }], outs: vec![Out { value: k as u64, script: vec![] }], lock: [0; 4], segwit: false }
        };
        b.extend_from_slice(&ser(&t, true));
        if k == mark {
            want = Some(t);
        }
    }
    let want = want.unwrap();
    let mut k = 0;
    Block::new(&b, 5).transactions(&mut |d| {
        check(k < n, "no more transactions than the block has");
        if k == mark {
            same(&want, d);
        } else {
            check(d.inputs.len() == 1 && d.inputs[0].index == k as u32 && d.outputs.len() == 1 && d.outputs[0].value == k as u64, "every transaction of the block, in order");
        }
        k += 1;
    });
    check(k == n, "every transaction of the block, in order");
    reach("many");
});

/// `n` in the form with 1, 3, 5 or 9 bytes
fn prefix(v: &mut Vec<u8>, n: usize, form: usize) {
    match form {
        0 => v.push(n as u8),
        1 => {
            v.push(0xfd);
            v.extend_from_slice(&(n as u16).to_le_bytes());
        }
        2 => {
            v.push(0xfe);
            v.extend_from_slice(&(n as u32).to_le_bytes());
        }
        _ => {
            v.push(0xff);
            v.extend_from_slice(&(n as u64).to_le_bytes());
        }
    }
}
// One of the prefixes in any of its forms: a count or length that needs 9 bytes
// is out of reach, so the longer forms carry small numbers here.
harness!(c02_prefixes, {
    let segwit = choose_bool("segwit");
    let w: &[usize] = if segwit { &[2, 1] } else { &[] };
    let t = tx(vec![any_in(1, w), any_in(2, w)], vec![any_out(3), any_out(0)], segwit);
    let at = choose("which prefix", if segwit { 12 } else { 6 });
    let form = choose_in("form", 1, 3);
    let write = |full: bool| {
        let mut k = 0;
        ser_with(&t, full, |v: &mut Vec<u8>, n: usize| {
            prefix(v, n, if k == at { form } else { 0 });
            k += 1;
        })
    };
    let id = hash2(&write(false));
    let b = write(true);
    let mut all = any_array::<80>("header").to_vec();
    let count = choose("form of the number of transactions", 4);
    prefix(&mut all, 2, count);
    all.extend_from_slice(&b);
    let u = tx(vec![any_in(0, &[])], vec![any_out(1)], false);
    all.extend_from_slice(&ser(&u, true));
    let mut k = 0;
    app::block::iterate_transactions(&all, &mut |d| {
        if k == 0 {
            same_fields(&t, &d);
            check_eq(&d.hash, &id, "the id is the double hash of the serialization without witness");
        } else {
            same(&u, &d);
        }
        k += 1;
    });
    check(k == 2, "every transaction of the block, in order");
    reach("prefixes");
});

// As many outputs or inputs as two bytes do not count.
harness!(c02_masses, {
    let n = 65_600usize;
    let small = |k: usize| In { hash: [k as u8; 32], index: k as u32, script: vec![], seq: [1; 4], wit: vec![] };
    let mut ins = vec![any_in(1, &[])];
    let mut outs = vec![any_out(1)];
    if choose_bool("inputs") {
        ins.extend((1..n).map(small));
    } else {
        outs.extend((1..n).map(|k| Out { value: k as u64, script: vec![] }));
    }
    ins.push(any_in(0, &[]));
    outs.push(any_out(0));
    decode(&tx(ins, outs, choose_bool("segwit")));
});
