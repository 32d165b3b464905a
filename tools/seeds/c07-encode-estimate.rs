#[test]
fn demo() {
    for n in 0..200 {
        let b: Vec<u8> = (0..n).map(|k| (k * 7 + 1) as u8).collect();
        assert_eq!(crate::base64::decode(crate::base64::encode(&b)).ok(), Some(b));
    }
}
