use super::zz_support::*;
#[test]
fn demo() {
    let t = Tx::new(&[([5; 32], 0)], &[(9, vec![0x51; 65536 + 3]), (10, script(&key(1)))]);
    let r = std::panic::catch_unwind(|| t.decoded()).expect("decoded");
    assert_eq!(r.hash, t.id());
    assert_eq!(r.outputs.len(), 2);
    assert_eq!(r.outputs[1].value, 10);
}
