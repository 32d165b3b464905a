//! Dying while saving.
use crate::model::*;
use app::logger::Logger;
use app::store::IndexedStore;
use vrt::*;

pub const TABLE: &[(&str, fn())] = &[("c10_killed", c10_killed), ("c10_power", c10_power), ("c10_twice", c10_twice), ("c10_large", c10_large), ("c10_same", c10_same), ("c10_names", c10_names)];
const T: bool = cfg!(feature = "thorough");
const FILE: &str = "/vfs/store";
static mut PATH: &str = FILE;
fn path() -> &'static str {
    unsafe { PATH }
}

fn chain(n: u32, owners: &[Addr]) -> Chain {
    let mut c = Chain::new();
    for h in 0..n {
        c.push(h, vec![coinbase(h, vec![pay(&owners[h as usize % 2], 1 << h)])]);
    }
    c
}
/// Save in a process of its own that may die at any operation; false if it died.
fn save(c: &Chain) -> bool {
    let s = c.store();
    fs::arm(false);
    let t = sched::spawn(Box::new(move || s.to_file(path(), &Logger::new())));
    sched::wait(&move || fs::crashed() || sched::is_done(t));
    fs::disarm();
    !fs::crashed()
}
fn after(old: Option<&Chain>, new: &Chain, finished: bool, owners: &[Addr]) {
    match catch(|| IndexedStore::from_file(path(), &Logger::new())) {
        Err(_) => check(false, "what is left under the store path is not a complete index"),
        Ok(None) => check(old.is_none() && !finished, "the saved index is lost"),
        Ok(Some(s)) => {
            if s.height() == new.blocks.len() && s.last_block_hash() == Some(new.tip()) {
                check_index(&s, &new.blocks, owners, "the new index is complete");
                reach("new");
            } else {
                check(!finished, "a finished save is found after a restart");
                match old {
                    Some(o) => {
                        check_index(&s, &o.blocks, owners, "the previous index is complete");
                        reach("old");
                    }
                    None => check(false, "no index was ever saved, but one is found"),
                }
            }
        }
    }
}
fn run(power: bool) {
    fs::fs().coarse = power && !T;
    sched::set_preemptions(0);
    let owners = [addr(0, 1), addr(5, 1)];
    let old = if choose_bool("first save") { None } else { Some(chain(1, &owners)) };
    if let Some(o) = &old {
        o.store().to_file("/vfs/other", &Logger::new());
        fs::put(FILE, fs::get("/vfs/other").unwrap());
    }
    let new = chain(2, &owners);
    let finished = save(&new);
    fs::restart(power);
    after(old.as_ref(), &new, finished && !power, &owners);
}
harness!(c10_killed, { run(false) });
harness!(c10_power, { run(true) });

// A save that died is followed by another one, which may die as well.
harness!(c10_twice, {
    fs::fs().coarse = !T;
    sched::set_preemptions(0);
    let owners = [addr(0, 1), addr(5, 1)];
    let chains = [chain(1, &owners), chain(3, &owners), chain(2, &owners)];
    chains[0].store().to_file("/vfs/other", &Logger::new());
    fs::put(FILE, fs::get("/vfs/other").unwrap());
    let first = save(&chains[1]);
    fs::restart(false);
    let found = match catch(|| IndexedStore::from_file(path(), &Logger::new())) {
        Ok(Some(s)) => s.height(),
        _ => {
            check(false, "what is left under the store path is not a complete index");
            stop()
        }
    };
    check(found == 3 || found == 1 && !first, "the saved index is lost");
    let second = save(&chains[2]);
    fs::restart(false);
    let old = if found == 3 { &chains[1] } else { &chains[0] };
    after(Some(old), &chains[2], second, &owners);
    reach("twice");
});

// A large index, saved over a smaller or a larger one.
harness!(c10_large, {
    fs::fs().coarse = true;
    sched::set_preemptions(0);
    let owners = [addr(0, 1), addr(5, 1)];
    let big = |n: u32, k: u32| {
        let mut c = Chain::new();
        for h in 0..n {
            c.push(h, vec![coinbase(h, (0..k).map(|i| pay(&owners[i as usize % 2], 1 + i as u64)).collect())]);
        }
        c
    };
    let n = if T { 1500 } else { 400 };
    let (old, new) = if choose_bool("shrinks") { (big(3, n), big(2, 1)) } else { (big(1, 2), big(2, n)) };
    old.store().to_file("/vfs/other", &Logger::new());
    fs::put(FILE, fs::get("/vfs/other").unwrap());
    let finished = save(&new);
    let power = choose_bool("power");
    fs::restart(power);
    after(Some(&old), &new, finished && !power, &owners);
});

// The new index is as long as the old one.
harness!(c10_same, {
    fs::fs().coarse = !T;
    sched::set_preemptions(0);
    let owners = [addr(0, 1), addr(5, 1)];
    let n = choose_in("blocks", 1, 2) as u32;
    let alike = |salt: u32| {
        let mut c = Chain::new();
        for h in 0..n {
            c.push(salt + h, vec![coinbase(salt + h, vec![pay(&owners[(salt + h) as usize % 2], (salt + h + 1) as u64)])]);
        }
        c
    };
    let (old, new) = (alike(0), alike(11));
    old.store().to_file("/vfs/other", &Logger::new());
    fs::put(FILE, fs::get("/vfs/other").unwrap());
    let finished = save(&new);
    let power = choose_bool("power");
    fs::restart(power);
    after(Some(&old), &new, finished && !power, &owners);
});

// The index may have any file name, in the working directory or elsewhere.
harness!(c10_names, {
    fs::fs().coarse = true;
    sched::set_preemptions(0);
    fs::mkdir("/vfs/data.tmp");
    fs::widen();
    let names = ["/vfs/store.tmp", "store", "./store.tmp", "/vfs/data.tmp/index", "/vfs/data.tmp/a.b.dat", "/vfs/.index", "data.tmp/index.tmp", "/vfs/old.new.bak", "/vfs/data.tmp/../index~"];
    let name = names[choose("name", names.len())];
    unsafe { PATH = name };
    let owners = [addr(0, 1), addr(5, 1)];
    let chains = [chain(1, &owners), chain(2, &owners)];
    if choose_bool("first save") {
        let finished = save(&chains[1]);
        let power = choose_bool("power");
        fs::restart(power);
        after(None, &chains[1], finished && !power, &owners);
        reach("first");
        return;
    }
    chains[0].store().to_file("/vfs/other", &Logger::new());
    fs::put(path(), fs::get("/vfs/other").unwrap());
    let finished = save(&chains[1]);
    let power = choose_bool("power");
    fs::restart(power);
    after(Some(&chains[0]), &chains[1], finished && !power, &owners);
    reach("name");
});
