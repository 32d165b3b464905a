#[test]
fn demo() {
    for n in (0..1000).step_by(7) {
        let b = vec![0xff; n];
        assert_eq!(crate::base58::decode(crate::base58::encode(&b)), Ok(b));
    }
}
