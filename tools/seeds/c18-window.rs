use crate::*;
#[test]
fn demo() {
    let v: Vec<u32> = SequentialThreadPool::new(
        2,
        |x: u32| {
            if x == 0 {
                std::thread::sleep(std::time::Duration::from_millis(500));
            }
            x
        },
        0..10,
    )
    .collect();
    assert_eq!(v, (0..10).collect::<Vec<u32>>());
}
