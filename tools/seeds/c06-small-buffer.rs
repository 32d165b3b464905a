#[test]
fn demo() {
    let mut b = [7u8; 2];
    assert!(crate::hex::decode_into("010203", &mut b).is_err());
    assert!(crate::reverse_hex::decode_into("010203", &mut b).is_err());
    assert_eq!(crate::hex::decode_into("0102", &mut b), Ok(2));
}
