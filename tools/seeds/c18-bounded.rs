use crate::*;
#[test]
fn demo() {
    let (done, is_done) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        let mut v: Vec<u32> = ThreadPool::new(2, |x: u32| x + 1, 0..300).collect();
        v.sort();
        done.send(v).unwrap();
    });
    let v = is_done.recv_timeout(std::time::Duration::from_secs(10)).expect("ended");
    assert_eq!(v, (1..301).collect::<Vec<u32>>());
}
