use super::zz_support::*;
#[test]
fn demo() {
    let first = Tx::coinbase(1, &[(50, script(&key(9)))]);
    let mut chain = Vec::new();
    extend(&mut chain, 1, &[first.clone()]);
    let spend = Tx::new(&[(first.id(), 0)], &[(50, script(&key(10)))]);
    let node = Server::start(chain.clone(), vec![]);
    let s = node.state(index(&chain), 1);
    let r = runtime();
    r.block_on(s.update());
    // the pool changes all the time
    let stop = std::sync::Arc::new(std::sync::atomic::AtomicBool::new(false));
    let updater = { let (s, stop, node, chain) = (s.clone(), stop.clone(), node.clone(), chain.clone()); std::thread::spawn(move || {
        let r = runtime();
        let mut n = 0;
        while !stop.load(std::sync::atomic::Ordering::SeqCst) {
            n += 1;
            node.set(&chain, if n % 2 == 0 { &[] } else { std::slice::from_ref(&spend) });
            r.block_on(s.update());
        }
    }) };
    let list: Vec<_> = (0..20000).map(|_| key(9)).collect();
    let end = std::time::Instant::now() + std::time::Duration::from_secs(5);
    let mut mixed = false;
    while !mixed && std::time::Instant::now() < end {
        let v = r.block_on(s.balance_array(list.clone(), 0));
        mixed = v.iter().any(|x| x.1 != v[0].1);
    }
    stop.store(true, std::sync::atomic::Ordering::SeqCst);
    updater.join().unwrap();
    assert!(!mixed, "one answer from two states");
}
