//! Scanning the block files.
use crate::files::*;
use crate::model::*;
use app::block::BlockTrait;
use app::block_file_reader::BlockFileReader;
use app::logger::Logger;
use vrt::*;

pub const TABLE: &[(&str, fn())] = &[
    ("c17_files", c17_files),
    ("c17_padding", c17_padding),
    ("c17_content", c17_content),
    ("c17_names", c17_names), ("c17_links", c17_links),
    ("c17_foreign", c17_foreign),
    ("c17_sizes", c17_sizes),
    ("c17_threads", c17_threads),
    ("c17_large", c17_large),
    ("c17_cut", c17_cut),("c17_many", c17_many)];
const T: bool = cfg!(feature = "thorough");

fn chain(n: u32) -> Vec<Blk> {
    let mut c = Chain::new();
    for k in 0..n {
        let cb = coinbase(k, vec![Out { value: k as u64 + 1, script: vec![0x51; k as usize] }]);
        let mut txs = vec![cb];
        if k % 2 == 1 {
            txs.push(Tx::with(50 + k, vec![(c.blocks[k as usize - 1].txs[0].id, 0)], vec![Out { value: 9, script: vec![0x52] }], true));
        }
        c.push(k, txs);
    }
    c.blocks
}
const ALL: &str = "every stored block is found with its own bytes";
fn found(want: &[Blk], threads: usize) {
    let got = BlockFileReader::new(DIR).blocks(threads, &Logger::new());
    let w: Vec<&Blk> = want.iter().collect();
    check_blocks(&got, &w, ALL);
}
fn refused(threads: usize) -> bool {
    catch(|| BlockFileReader::new(DIR).blocks(threads, &Logger::new())).is_err()
}
// Blocks over several files in any order, each file with or without padding.
harness!(c17_files, {
    fs::mkdir(DIR);
    unsafe { posix::DIR_REVERSED = choose_bool("directory order") };
    let n = choose("blocks", 5);
    let all = chain(n as u32);
    let mut files: Vec<Vec<&Blk>> = vec![Vec::new(); 3];
    for b in &all {
        let f = choose("file", 3);
        if choose_bool("front") {
            files[f].insert(0, b);
        } else {
            files[f].push(b);
        }
    }
    let padded = choose("padded", 3);
    for (k, f) in files.iter().enumerate() {
        let name = ["blk00000.dat", "blk00001.dat", "blk12345.dat"][k];
        // a file need not exist
        if !f.is_empty() || choose_bool("empty file") {
            file(name, f, if padded == k { 1000 } else { 0 });
        }
    }
    found(&all, 1);
    reach("found");
});
// Any padding length.
harness!(c17_padding, {
    fs::mkdir(DIR);
    let n = choose("blocks in the first file", 3);
    let all = chain(n as u32 + 1);
    let w: Vec<&Blk> = all.iter().collect();
    let pad = choose("padding", if T { 400 } else { 200 });
    file("blk00000.dat", &w[..n], pad);
    file("blk00001.dat", &w[n..], choose("padding at the end", 2) * 5);
    found(&all, 1);
    reach(if pad == 0 { "none" } else if pad < 88 { "short" } else { "long" });
});
// Every header field, amount and script byte is arbitrary.
harness!(c17_content, {
    fs::mkdir(DIR);
    let value = any_u64("value");
    let script = any_vec("script", choose("script length", 5));
    let mut a = Blk::new([0; 32], 0, vec![coinbase(0, vec![Out { value, script }])]);
    a.salt = any_u32("merkle root, time, bits, nonce");
    a.id = hash2(&a.header());
    let mut b = Blk::new(a.id, 1, vec![coinbase(1, vec![]), Tx::new(any_u32("salt"), vec![(any_array("input"), any_u32("number"))], vec![])]);
    b.salt = any_u32("more");
    b.id = hash2(&b.header());
    // different blocks have different ids
    assume(!eq(&a.id, &b.id));
    file("blk00000.dat", &[&b, &a], 200);
    found(&[a.clone(), b.clone()], 1);
    reach("content");
});
// Other files of the directory do not matter.
harness!(c17_names, {
    fs::mkdir(DIR);
    let all = chain(2);
    let junk = b"these bytes are no blocks and not zero either, and there are more than eighty-eight of them in this file, so that".to_vec();
    let mut block = false;
    match choose("other file", 3) {
        0 => {
            let names = ["blk0000.dat", "blk000000.dat", "blk00000.da", "blk00000.datx", "xblk00000.dat", "rev00000.dat", "blk00002.dat.bak", "blk.dat", "b", "blk00007_dat", "BLK00000.DAT", "blk00000.dat ", ".lock", "xor.dat", "blk-0001.dat", "blk+0001.dat", "blk0000a.dat", "blk00001.dat\n"];
            let n = names[choose("name", names.len())];
            fs::put(&format!("{}/{}", DIR, n), junk);
        }
        1 => {
            // one character of a block file name is different
            let mut n = b"blk00007.dat".to_vec();
            let p = choose("position", n.len());
            let c = choose("character", 128) as u8;
            assume(c != 0 && c != b'/');
            let same = if p >= 3 && p < 8 { c >= b'0' && c <= b'9' } else { c == n[p] };
            n[p] = c;
            if same {
                block = true;
            } else {
                fs::put(&format!("{}/{}", DIR, std::str::from_utf8(&n).unwrap()), junk);
            }
        }
        _ => {
            // not even text
            let mut n = DIR.as_bytes().to_vec();
            n.extend_from_slice(b"/blk0000\xff.dat");
            let n = unsafe { String::from_utf8_unchecked(n) };
            fs::put(&n, junk);
            reach("no text");
        }
    }
    let w: Vec<&Blk> = all.iter().collect();
    file("blk00000.dat", &w[..1], 100);
    if block {
        file("blk00007.dat", &w[1..], 0);
    } else {
        file("blk00001.dat", &w[1..], 0);
    }
    found(&all, 1);
    reach("names");
});
// Data that is neither a block nor padding.
harness!(c17_foreign, {
    sched::set_preemptions(1);
    fs::mkdir(DIR);
    let all = chain(3);
    let mut v = record(&all[0]);
    let mut m = any_array::<4>("magic");
    assume(!eq(&m, &MAGIC));
    if choose_bool("block-like") {
        // a block of another network
        assume(!eq(&m, &[0; 4]));
        v.extend_from_slice(&m);
        v.extend_from_slice(&record(&all[1])[4..]);
        v.extend_from_slice(&record(&all[2]));
        reach("other network");
    } else {
        // a few bytes at the end
        let n = choose_in("bytes", 1, 4);
        let mut z = 0u8;
        for x in &m[..n] {
            z |= *x;
        }
        assume(z != 0);
        v.extend_from_slice(&m[..n]);
        reach("tail");
    }
    let f = choose("file", 2);
    fs::put(&format!("{}/blk0000{}.dat", DIR, f), v);
    file(["blk00001.dat", "blk00000.dat"][f], &[&all[1]], 0);
    check(refused(choose_in("threads", 1, 2)), "foreign data is refused");
});
// Blocks of many sizes, so that they end anywhere.
harness!(c17_sizes, {
    fs::mkdir(DIR);
    let n = choose("script length", if T { 600 } else { 300 });
    let a = Blk::new([0; 32], 0, vec![coinbase(0, vec![Out { value: 1, script: vec![0x51; n] }])]);
    let b = Blk::new(a.id, 1, vec![coinbase(1, vec![])]);
    file("blk00000.dat", &[&a, &b], 0);
    found(&[a, b], 1);
    reach("sizes");
});
// Several threads.
harness!(c17_threads, {
    sched::set_preemptions(if T { 2 } else { 1 });
    fs::mkdir(DIR);
    let all = chain(4);
    let w: Vec<&Blk> = all.iter().collect();
    let k = choose("cut", 4);
    let mut bad = false;
    file("blk00000.dat", &w[..k], 100);
    file("blk00001.dat", &[], 100);
    if choose_bool("foreign file") {
        bad = true;
        let mut v = record(w[k]);
        v.extend_from_slice(&[1; 100]);
        fs::put(&format!("{}/blk00002.dat", DIR), v);
    }
    file("blk00003.dat", &w[k..], 0);
    let t = choose_in("threads", 2, 3);
    if bad {
        check(refused(t), "foreign data is refused");
        reach("refused");
    } else {
        found(&all, t);
        reach("found");
    }
});
// Large blocks: the ones behind them are found, and the large ones have their own bytes.
harness!(c17_large, {
    fs::mkdir(DIR);
    const N: [usize; 8] = [32_700, 65_300, 65_535, 65_536, 70_000, 140_000, 262_144, 1_100_000];
    let k = choose("script length", N.len());
    let a = Blk::new([0; 32], 0, vec![coinbase(0, vec![Out { value: 1, script: vec![0x51; N[k]] }])]);
    let b = Blk::new(a.id, 1, vec![coinbase(1, vec![Out { value: 2, script: vec![0x52; if k < 5 { N[k] } else { 1 }] }])]);
    let c = Blk::new(b.id, 2, vec![coinbase(2, vec![])]);
    let one = choose_bool("one file");
    file("blk00000.dat", &[&a, &b], if one { 0 } else { 70_000 });
    if one {
        let mut v = fs::get(&format!("{}/blk00000.dat", DIR)).unwrap();
        v.extend_from_slice(&record(&c));
        fs::put(&format!("{}/blk00000.dat", DIR), v);
    } else {
        file("blk00001.dat", &[&c], 0);
    }
    found(&[a, b, c], 1);
    reach("large");
});
// A file that ends within a block: nothing is made up for the missing bytes.
harness!(c17_cut, {
    fs::mkdir(DIR);
    let a = Blk::new([0; 32], 0, vec![coinbase(0xf000_0000, vec![Out { value: 1, script: vec![0x51; 3] }])]);
    let b = Blk::new(a.id, 1, vec![
        coinbase(0xf000_0001, vec![]),
        Tx::with(0xf000_0002, vec![(a.txs[0].id, 0)], vec![Out { value: 1 << 60, script: vec![0x51; 3] }], choose_bool("witness")),
    ]);
    let c = Blk::new(b.id, 2, vec![coinbase(0xf000_0003, vec![])]);
    let all = [a, b, c];
    let mut v = Vec::new();
    if choose_bool("behind another block") {
        v.extend_from_slice(&record(&all[0]));
    } else {
        file("blk00001.dat", &[&all[0]], 0);
    }
    let r = record(&all[1]);
    v.extend_from_slice(&r[..choose_in("bytes left", 1, r.len() - 1)]);
    fs::put(&format!("{}/blk00002.dat", DIR), v);
    file("blk00003.dat", &[&all[2]], 0);
    let ok = catch(|| {
        for g in &BlockFileReader::new(DIR).blocks(1, &Logger::new()) {
            match all.iter().find(|w| eq(&w.id, &g.hash())) {
                Some(w) => check_data(g, w, "nothing is made up for missing bytes"),
                None => check(false, "nothing is made up for missing bytes"),
            }
        }
    })
    .is_ok();
    reach(if ok { "left out" } else { "refused" });
});
// Many files, many blocks, and more threads.
harness!(c17_many, {
    sched::set_preemptions(0);
    sched::set_delays(1);
    fs::mkdir(DIR);
    unsafe { posix::DIR_REVERSED = choose_bool("directory order") };
    let n = [30usize, 120][choose("files", 2)];
    let all = chain(n as u32);
    for k in 0..n {
        // 00000, 00001, ... or numbers spread over the whole range, not in the order of the blocks
        let f = if n == 30 { (k * 3447 + 99_999 - k) % 100_000 } else { n - 1 - k };
        file(&format!("blk{:05}.dat", f), &[&all[k]], k % 3);
        if k % 10 == 0 {
            file(&format!("rev{:05}.dat", f), &[&all[k / 2]], 0);
        }
    }
    found(&all, [1usize, 2, 8][choose("threads", 3)]);
    reach("many");
});

// Files, or the directory itself, live elsewhere.
harness!(c17_links, {
    let all = chain(3);
    let w: Vec<&Blk> = all.iter().collect();
    let mut dir = DIR;
    if choose_bool("directory") {
        dir = "/vfs/disk";
        fs::mkdir(dir);
        fs::symlink(if choose_bool("relative") { "disk" } else { dir }, DIR);
    } else {
        fs::mkdir(DIR);
    }
    fs::mkdir("/vfs/far");
    for k in 0..3 {
        let name = format!("blk0000{}.dat", k);
        if choose_bool("elsewhere") {
            fs::put(&format!("/vfs/far/{}.old", k), record(w[k]));
            let to = format!("{}/far/{}.old", if choose_bool("relative") { ".." } else { "/vfs" }, k);
            fs::symlink(&to, &format!("{}/{}", dir, name));
        } else {
            fs::put(&format!("{}/{}", dir, name), record(w[k]));
        }
    }
    found(&all, 1);
    reach("links");
});
