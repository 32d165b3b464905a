use super::zz_support::*;
#[test]
fn demo() {
    let f = Folder::new("c15");
    let chain = plain_chain(6);
    let node = Server::start(chain[..3].to_vec(), vec![]);
    let s = node.state(index(&chain[..2]), 2);
    let r = runtime();
    r.block_on(s.update());
    // a save that hangs: somewhere a pipe is in the way
    let path = f.file("index");
    for p in [path.clone(), format!("{}.tmp", path)] {
        assert!(std::process::Command::new("mkfifo").arg(&p).status().unwrap().success());
    }
    let saving = { let (s, path) = (s.clone(), path.clone()); std::thread::spawn(move || { let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| runtime().block_on(s.write(&path)))); }) };
    std::thread::sleep(std::time::Duration::from_millis(500));
    let update = { let (s, node, chain) = (s.clone(), node.clone(), chain.clone()); std::thread::spawn(move || {
        node.set(&chain[..5], &[]);
        runtime().block_on(s.update());
    }) };
    std::thread::sleep(std::time::Duration::from_millis(1000));
    for p in [format!("{}.tmp", path), path.clone()] {
        std::thread::spawn(move || { let _ = std::fs::read(&p); });
    }
    assert!(wait(|| saving.is_finished() && update.is_finished(), 20000));
    assert!(update.join().is_ok());
    for k in 0..5 {
        assert_eq!(ask(&r, &s, &key(k), 1).0, 1000 + k as u64);
    }
    node.set(&chain, &[]);
    assert!(std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| r.block_on(s.update()))).is_ok());
    for k in 0..5 {
        assert_eq!(ask(&r, &s, &key(k), 2).0, 1000 + k as u64);
    }
    assert_eq!(ask(&r, &s, &key(5), 1).0, 1005);
}
