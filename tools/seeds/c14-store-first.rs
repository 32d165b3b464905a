use super::zz_support::*;
#[test]
fn demo() {
    let a = key(9);
    let mut chain = Vec::new();
    for k in 0..3 {
        extend(&mut chain, k, &[Tx::coinbase(k, &[([100, 10, 1][k as usize], script(&a))])]);
    }
    let node = Server::start(chain[..2].to_vec(), vec![]);
    let s = node.state(index(&chain[..1]), 2);
    let r = runtime();
    r.block_on(s.update());
    assert_eq!(ask(&r, &s, &a, 0).0, 110);
    node.set(&chain, &[]);
    // a query that takes its time, an update that waits for it, another query that waits for the update
    let (go, wait_go) = std::sync::mpsc::channel::<()>();
    let (began, has_begun) = std::sync::mpsc::channel::<()>();
    let slow = { let s = s.clone(); std::thread::spawn(move || runtime().block_on(s.iterate_transaction_outputs(&key(9), 0, |_, _| { began.send(()).unwrap(); let _ = wait_go.recv(); }))) };
    has_begun.recv().unwrap();
    let update = { let s = s.clone(); std::thread::spawn(move || { runtime().block_on(s.update()); }) };
    std::thread::sleep(std::time::Duration::from_millis(700));
    let query = { let s = s.clone(); std::thread::spawn(move || runtime().block_on(s.balance(&key(9), 0))) };
    std::thread::sleep(std::time::Duration::from_millis(300));
    drop(go);
    slow.join().unwrap();
    update.join().unwrap();
    let b = query.join().unwrap();
    assert!(b == 110 || b == 111, "{}", b);
    assert_eq!(ask(&r, &s, &a, 0).0, 111);
}
